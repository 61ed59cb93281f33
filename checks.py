"""Registry: property -> harness units."""

REAL = ("the code under test is compiled from /repo/include unmodified (g++ -O1, default configuration); "
        "floating-point comparisons use a relative tolerance of 1e-9 or tighter")


def dims(src, ds, **kw):
    return [dict(name="%s_%dd" % (src.split(".")[0], d), src=src, defs=["DIM=%d" % d] + kw.get("defs", []),
                 **{k: v for k, v in kw.items() if k != "defs"}) for d in ds]


CHECKS = {
    "C01": dict(tus=dims("c01.cpp", (1, 2, 3)), assumptions=[REAL]),
    "C02": dict(tus=dims("c02.cpp", (1, 2, 3)), assumptions=[REAL]),
    "C03": dict(tus=[dict(name="c03_int", src="c03.cpp", defs=["VALUE_T=int"]),
                     dict(name="c03_ll", src="c03.cpp", defs=["VALUE_T=long long"])], assumptions=[REAL]),
    "C04": dict(tus=[dict(name="c04_%dd_p%d" % (d, p), src="c04.cpp", defs=["DIM=%d" % d, "PART=%d" % p])
                     for d in (1, 2, 3) for p in (0, 1)], assumptions=[REAL]),
    "C05": dict(tus=dims("c05.cpp", (1, 2, 3)), assumptions=[REAL]),
    "C06": dict(tus=dims("c06.cpp", (1, 2, 3)), assumptions=[REAL]),
    "M01": dict(tus=dims("m01.cpp", (1, 2, 3)), assumptions=[REAL]),
    "M02": dict(tus=dims("m02.cpp", (1, 2, 3)), assumptions=[REAL]),
    "M03": dict(tus=dims("m03.cpp", (1, 2, 3)), assumptions=[REAL]),
    "M04": dict(tus=dims("m04.cpp", (1, 2, 3)), assumptions=[REAL, "stencil width at least the prediction order"]),
    "N01": dict(tus=dims("n01.cpp", (1,), defs=["OMIN=0", "OMAX=5"])
                + [dict(name="n01_2d_o%d%d" % o, src="n01.cpp", defs=["DIM=2", "OMIN=%d" % o[0], "OMAX=%d" % o[1]])
                   for o in ((0, 2), (3, 4), (5, 5))]
                + [dict(name="n01_3d_o%d%d" % o, src="n01.cpp", defs=["DIM=3", "OMIN=%d" % o[0], "OMAX=%d" % o[1]])
                   for o in ((0, 0), (1, 1), (2, 2))]
                + [dict(name="n01_3d_o%d%d" % o, src="n01.cpp", thorough_only=True,
                        defs=["DIM=3", "OMIN=%d" % o[0], "OMAX=%d" % o[1]]) for o in ((3, 3), (4, 4), (5, 5))],
                assumptions=[REAL]),
    "N02": dict(tus=dims("n02.cpp", (1, 2, 3)), assumptions=[REAL, "stencil width at least the prediction order"]),
    "N03": dict(tus=dims("n03.cpp", (1, 2, 3)), assumptions=[REAL, "regions made of whole faces of coarsest-level cells"]),
    "N04": dict(tus=dims("n04.cpp", (1, 2, 3)), assumptions=[REAL, "stencil width at least the prediction order"]),
    "F01": dict(tus=dims("f01.cpp", (1, 2, 3)), assumptions=[REAL]),
    "S01": dict(tus=dims("s01.cpp", (1, 2, 3)), assumptions=[REAL, "coarsest level at least three cells wide for the periodic conservation law"]),
    "S02": dict(tus=dims("s02.cpp", (1, 2, 3)), assumptions=[REAL]),
    "S03": dict(tus=dims("s03.cpp", (1, 2, 3)), assumptions=[REAL]),
    "S04": dict(tus=dims("s04.cpp", (1, 2, 3)), assumptions=[REAL]),
    "R01": dict(tus=dims("r01.cpp", (1, 2, 3)), assumptions=[REAL, "level differences of two or more need a stencil width of at least twice the prediction order (the reach of repeated prediction)", "the weights of repeated prediction are the tensor product of the one-dimensional ones"]),
    "D01": dict(tus=dims("d01.cpp", (1, 2, 3)), assumptions=[REAL, "box corners are fractions with small denominators; the tolerance does not apply when a subdivision length is given"]),
    "Q01": dict(tus=dims("q01.cpp", (1, 2, 3)), assumptions=[REAL, "in three dimensions and above degree 5 (15 in two) the exponents per direction are the two smallest and the two largest; the one-dimensional runs cover every exponent for the same tables"]),
    "H01": dict(tus=dims("h01.cpp", (1, 2, 3)), assumptions=[REAL, "HighFive is not installed: the HDF5 layer is replaced by an in-memory stand-in (harness/shim) with the same interface that checks selections and records what is written; the XDMF file is really written and read back with pugixml"]),
    "T01": dict(tus=dims("t01.cpp", (1, 2, 3), petsc=True) + [dict(name="t01_1d_p2", src="t01.cpp", defs=["DIM=1", "PORDER=2"], petsc=True)],
                assumptions=[REAL, "the systems are solved with PETSc's direct solvers (UMFPACK, dense LU, SVD)", "in two and three dimensions the non-linear solver is compared with the explicit scheme it evaluates, the linear ones with the model of the ghosts (their prediction is the exact tensor product)",
                             "known finding T01-outer: outer ghosts that touch no leaf of their level are zero in the assembled system"]),
    "X01": dict(tus=dims("x01.cpp", (1, 2, 3), defs=["SAMURAI_WITH_MPI"], inc=["mpi_shim"], ldflags=["-lboost_serialization"]),
                technique="stateless model checking of the implementation: the processes are coroutines under a controlled scheduler standing in for boost::mpi; configurations and schedules are enumerated exhaustively within bounds and every run is compared with the run on one process",
                assumptions=["the code under test is compiled from /repo/include with SAMURAI_WITH_MPI and a stand-in for boost::mpi (harness/mpi_shim): channels keep the order of equal tags, a send completes only when it is received, every receive names its source and tag, collectives wait for all processes",
                             "all receives name their source and nothing polls, so the calls of different processes commute and the enumerated schedules (process priorities, switching at every call or at blocking ones, payload read early or late) stand for all message orders",
                             "every process owns at least one cell, and sub-domains are unions of coarsest cells, in the step and adaptation families; domains are not periodic",
                             "known finding X01-jump: fluxes of a leaf next to a finer leaf of another process"]),
    "P01": dict(tus=dims("p01.cpp", (1, 2, 3), defs=["SAMURAI_WITH_OPENMP"], flags=["-fopenmp", "-fsanitize=thread"], pre=[("omp_rt.cpp", [])],
                         ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"))],
                         drop_lines=r"^\s*#\s*pragma\s+omp\s+simd\b"),
                assumptions=["the code under test is compiled from /repo/include with g++ -O1 -fopenmp -fsanitize=thread and linked with a controlled OpenMP runtime instead of libgomp and libtsan",
                             "the `omp simd` hints are dropped from a copy of the headers: g++ 13 fails with an internal error on them inside generic lambdas",
                             "tasks are atomic steps of the explored schedules; the conflict analysis of all task pairs justifies it (no unordered conflicting accesses, atomic updates commute)",
                             "accesses made inside shared libraries are not recorded"]),
}
