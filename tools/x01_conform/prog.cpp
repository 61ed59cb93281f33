#include <boost/mpi.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/mr/adapt.hpp>
#include <samurai/field.hpp>
#include <samurai/bc.hpp>
#include <samurai/algorithm/update.hpp>
#include <cstdio>
void body(int r){
  using Mesh = samurai::MRMesh<samurai::MRConfig<2>>;
    samurai::Box<double,2> box({0.,0.},{1.,1.});
    Mesh mesh(box,2,5);
    auto u=samurai::make_field<double,1>("u",mesh);
    u.fill(0);
    samurai::make_bc<samurai::Dirichlet<1>>(u,0.);
    samurai::for_each_cell(mesh,[&](auto&c){ u[c]=std::exp(-60*(pow(c.center(0)-.3,2)+pow(c.center(1)-.4,2))); });
    auto ad=samurai::make_MRAdapt(u);
    for(int k=0;k<3;++k){ ad(1e-3,1.); 
    double s=0; samurai::for_each_cell(mesh,[&](auto&c){ s+=u[c]*(c.center(0)+2*c.center(1)+c.level); });
    std::printf("step %d rank %d leaves %zu ref %zu sum %.12g\n",k,r,mesh.nb_cells(Mesh::mesh_id_t::cells),mesh.nb_cells(Mesh::mesh_id_t::reference),s);}
}
int main(int argc,char**argv){
#ifdef SIM
  int n=atoi(argv[1]); std::vector<int> pr; for(int i=0;i<n;++i) pr.push_back(i);
  mpisim::run(n,pr,false,false,body);
#else
  boost::mpi::environment env(argc,argv); boost::mpi::communicator w; body(w.rank());
#endif
}
