// the few HDF5 C calls used by triqs/operators, over the in-memory tree of h5/h5.hpp (raw bytes are stored as they are)
#pragma once
#include <h5/h5.hpp>
#include <cstring>
#include <cstddef>
using hsize_t = h5::hsize_t; using herr_t = int;
#define H5T_COMPOUND 0
#define H5T_NATIVE_INT 4
#define H5T_NATIVE_DOUBLE 8
#define H5T_NATIVE_LONG 8
#define H5S_ALL h5::object()
#define H5P_DEFAULT 0
#define HOFFSET(S, M) (offsetof(S, M))
inline h5::object H5Tcreate(int, size_t n) { h5::object o; o.n->esz = n; return o; }
inline int H5Tinsert(h5::object const &, char const *, size_t, int) { return 0; }
inline int H5Tinsert(h5::object const &, char const *, size_t, h5::object const &) { return 0; }
inline h5::object H5Tarray_create(int, int, hsize_t const *) { return {}; }
inline h5::object H5Screate_simple(int, hsize_t const *d, void *) { h5::object o; o.n->cnt = d[0]; return o; }
inline h5::object H5Dget_space(h5::object const &o) { return o; }
inline int H5Sget_simple_extent_dims(h5::object const &o, hsize_t *d, void *) { d[0] = o.n->cnt; return 1; }
inline int H5Dwrite(h5::object const &ds, h5::object const &, h5::object const &, h5::object const &, int, void const *p) { if (!ds.n->raw.empty()) std::memcpy(ds.n->raw.data(), p, ds.n->raw.size()); return 0; }
inline int H5Dread(h5::object const &ds, h5::object const &, h5::object const &, h5::object const &, int, void *p) { if (!ds.n->raw.empty()) std::memcpy(p, ds.n->raw.data(), ds.n->raw.size()); return 0; }
