// Minimal model of the mpi dependency: one process by default; a harness may install `mpi::stub` to play several ranks.
#pragma once
#include <vector>
#include <string>
#include <type_traits>
#include <utility>
#include <functional>
#define MPI_SUM 0
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_LOR 3
#define MPI_LAND 4
#define MPI_IN_PLACE nullptr
using MPI_Op = int; using MPI_Comm = int; using MPI_Datatype = int;
#define MPI_UNDEFINED (-32766)
#define MPI_COMM_WORLD 0
#define MPI_COMM_NULL (-1)
namespace mpi {
  namespace stub { inline int rank = 0, size = 1; inline bool env = false; inline int barriers = 0, broadcasts = 0, reduces = 0; }
  inline bool const &has_env_ref() { return stub::env; }
#ifdef MPI_STUB_ENV
  inline bool has_env = true;
#else
  inline bool has_env = false;
#endif
  inline bool is_initialized() noexcept { return false; }
  inline bool is_finalized() noexcept { return false; }
  struct environment { environment(int, char **) {} environment() {} };
#ifdef MPI_STUB_RANKS
}
#include <algorithm>
#include "ranks.hpp"
namespace mpi {
#else
  class communicator { int c = 0; public: communicator() = default; communicator(int x) : c(x) {} int rank() const { return stub::rank; } int size() const { return stub::size; } int get() const { return c; } bool is_null() const { return false; }
    communicator split(int, int = 0) const { return *this; } communicator duplicate() const { return *this; } void barrier(long = 1) const { ++stub::barriers; } void abort(int) const { __builtin_abort(); } };
  template <typename T> void broadcast(T &, communicator = {}, int = 0) { ++stub::broadcasts; }
  namespace lz { template <typename T> T id(T x) { return x; } }
#ifndef MPI_STUB_REDUCE
  template <typename T> auto reduce(T &&x, communicator = {}, int = 0, bool = false, MPI_Op = MPI_SUM) { ++stub::reduces; return std::decay_t<T>(std::forward<T>(x)); }
  template <typename T> auto all_reduce(T &&x, communicator = {}, MPI_Op = MPI_SUM) { ++stub::reduces; return std::decay_t<T>(std::forward<T>(x)); }
  template <typename T> void reduce_in_place(T &&, communicator = {}, int = 0, bool = false, MPI_Op = MPI_SUM) { ++stub::reduces; }
  template <typename T> void all_reduce_in_place(T &&, communicator = {}, MPI_Op = MPI_SUM) { ++stub::reduces; }
#else
#include MPI_STUB_REDUCE
#endif
  template <typename T> auto gather(T &&x, communicator = {}, int = 0, bool = false) { return std::decay_t<T>(std::forward<T>(x)); }
  template <typename T> auto all_gather(T &&x, communicator = {}) { return std::decay_t<T>(std::forward<T>(x)); }
#endif
  template <typename T> auto scatter(T &&x, communicator = {}, int = 0) { return std::decay_t<T>(std::forward<T>(x)); }
  template <typename R> R chunk(R &&r, communicator = {}) { return std::forward<R>(r); }
  template <typename T> struct is_mpi_lazy : std::false_type {};
  template <typename T> constexpr bool is_mpi_lazy_v = false;
  template <typename T> constexpr bool has_mpi_type = std::is_arithmetic_v<T>;
  template <typename Tag, typename T> struct lazy { T rhs; communicator c; int root; bool all; int op; };
  namespace tag { struct reduce {}; struct scatter {}; struct gather {}; }
}
