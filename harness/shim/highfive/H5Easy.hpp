// In-memory stand-in for the part of HighFive that samurai's hdf5.hpp uses
// (HighFive is not installed in the sandbox).  Datasets are kept in a global
// map so that a harness can read back what was "written"; bounds of every
// selection are checked, and creating the same dataset twice throws, as HDF5 does.
#pragma once
#include <cstddef>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace HighFive
{
    struct ShimData
    {
        std::vector<std::size_t> dims;
        std::size_t elem = 0;
        std::string type;
        std::vector<unsigned char> bytes;
        std::vector<unsigned char> written; // one flag per element

        template <class T>
        std::vector<T> as() const
        {
            if (type != typeid(T).name())
            {
                throw std::runtime_error("shim: dataset type mismatch");
            }
            std::vector<T> v(bytes.size() / sizeof(T));
            if (!bytes.empty())
            {
                std::memcpy(v.data(), bytes.data(), bytes.size());
            }
            return v;
        }

        bool fully_written() const
        {
            for (auto w : written)
            {
                if (w != 1)
                {
                    return false;
                }
            }
            return true;
        }
    };

    using ShimFile = std::map<std::string, ShimData>;

    inline std::map<std::string, ShimFile>& shim_files()
    {
        static std::map<std::string, ShimFile> files;
        return files;
    }

    struct FileAccessProps
    {
        template <class T>
        void add(const T&)
        {
        }
    };

    struct DataTransferProps
    {
        template <class T>
        void add(const T&)
        {
        }
    };

    template <class T>
    struct AtomicType
    {
    };

    struct DataSpace
    {
        std::vector<std::size_t> dims;

        explicit DataSpace(const std::vector<std::size_t>& d)
            : dims(d)
        {
        }
    };

    struct Selection
    {
        ShimData* data;
        std::vector<std::size_t> offset, count;

        template <class T, class A, class P>
        void write_raw(const T* ptr, const A&, const P&)
        {
            if (data->type != typeid(T).name())
            {
                throw std::runtime_error("shim: write type mismatch");
            }
            std::size_t nd = data->dims.size();
            if (offset.size() != nd || count.size() != nd)
            {
                throw std::runtime_error("shim: selection rank mismatch");
            }
            std::size_t n = 1;
            for (std::size_t d = 0; d < nd; ++d)
            {
                n *= count[d];
                if (offset[d] + count[d] > data->dims[d])
                {
                    throw std::runtime_error("shim: selection out of bounds");
                }
            }
            for (std::size_t k = 0; k < n; ++k)
            {
                std::size_t rem = k, lin = 0;
                std::vector<std::size_t> idx(nd);
                for (std::size_t d = nd; d-- > 0;)
                {
                    idx[d] = rem % count[d];
                    rem /= count[d];
                }
                for (std::size_t d = 0; d < nd; ++d)
                {
                    lin = lin * data->dims[d] + offset[d] + idx[d];
                }
                std::memcpy(data->bytes.data() + lin * sizeof(T), ptr + k, sizeof(T));
                data->written[lin]++;
            }
        }
    };

    struct DataSet
    {
        ShimData* data;

        Selection select(const std::vector<std::size_t>& offset, const std::vector<std::size_t>& count) const
        {
            return {data, offset, count};
        }
    };

    class File
    {
      public:

        enum
        {
            ReadOnly,
            ReadWrite,
            Truncate,
            Overwrite,
            Create
        };

        template <class P>
        File(const std::string& name, int, const P&)
            : m_name(name)
        {
            shim_files()[m_name].clear();
        }

        template <class T>
        DataSet createDataSet(const std::string& path, const DataSpace& space)
        {
            auto& f = shim_files()[m_name];
            if (f.count(path))
            {
                throw std::runtime_error("shim: dataset already exists: " + path);
            }
            auto& d       = f[path];
            d.dims        = space.dims;
            d.elem        = sizeof(T);
            d.type        = typeid(T).name();
            std::size_t n = 1;
            for (auto s : d.dims)
            {
                n *= s;
            }
            d.bytes.assign(n * sizeof(T), 0);
            d.written.assign(n, 0);
            return {&d};
        }

      private:

        std::string m_name;
    };
}

namespace H5Easy
{
    using namespace HighFive;
}
