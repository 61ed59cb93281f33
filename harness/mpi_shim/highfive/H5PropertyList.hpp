#pragma once
#include_next <highfive/H5PropertyList.hpp>
#define MPI_COMM_WORLD 0
#define MPI_INFO_NULL 0

namespace HighFive
{
    struct MPIOFileAccess
    {
        int comm, info;
    };

    struct MPIOCollectiveMetadata
    {
    };

    struct UseCollectiveIO
    {
    };
}
