// Several ranks played one after the other: a rank runs until it needs a contribution that another rank has not made yet;
// it is then restarted from the beginning with the results of the collectives completed so far (mpi::stub::run).
namespace mpi {
  namespace stub {
    struct val { std::vector<double> d; std::vector<long> l; };
    struct slot { std::vector<val> in; std::vector<char> have; int n = 0, kind = -1, root = 0; std::vector<int> newc; };
    struct comm { std::vector<int> members; std::vector<slot> slots; };
    inline std::vector<comm> comms{{{0}, {}}}; inline std::vector<int> seq{0}; inline int me = 0; inline bool mismatch = false; inline long made = 0;
    struct blocked {};
    inline int pos(int c) { auto &m = comms[c].members; for (int i = 0; i < (int)m.size(); ++i) if (m[i] == me) return i; return -1; }
    inline slot &collect(int c, int kind, int root, val v) {
      int p = pos(c); auto &C = comms[c]; if (p < 0) { mismatch = true; throw blocked{}; } int s = seq[c]++; if (s >= (int)C.slots.size()) { slot x; x.in.resize(C.members.size()); x.have.assign(C.members.size(), 0); x.kind = kind; x.root = root; C.slots.push_back(x); }
      auto &S = C.slots[s]; if (S.kind != kind || S.root != root) mismatch = true; if (!S.have[p]) { S.in[p] = v; S.have[p] = 1; ++S.n; ++made; } if (S.n < (int)C.members.size()) throw blocked{}; return S;
    }
    template <typename F> bool run(int n, F f) {
      comms.clear(); comm w; for (int i = 0; i < n; ++i) w.members.push_back(i); comms.push_back(w); std::vector<char> fin(n, 0); int left = n; mismatch = false;
      while (left) { long before = made; int l0 = left; for (int r = 0; r < n; ++r) if (!fin[r]) { me = r; seq.assign(comms.size(), 0); try { f(r); fin[r] = 1; --left; } catch (blocked &) {} } if (made == before && left == l0) return false; }
      return !mismatch;
    }
    template <typename T> void pack(val &v, T const &x) { if constexpr (std::is_integral_v<T>) v.l.push_back((long)x); else if constexpr (std::is_floating_point_v<T>) v.d.push_back(x); else if constexpr (requires { x.real(); x.imag(); }) { v.d.push_back(x.real()); v.d.push_back(x.imag()); } else for (auto const &y : x) pack(v, y); }
    template <typename T> void unpack(val const &v, T &x, int &i, int &j) { if constexpr (std::is_integral_v<T>) x = (T)v.l.at(j++); else if constexpr (std::is_floating_point_v<T>) x = v.d.at(i++); else if constexpr (requires { x.real(); x.imag(); }) { double a = v.d.at(i++); x = T(a, v.d.at(i++)); } else for (auto &y : x) unpack(v, y, i, j); }
    inline val sum(slot const &s) { val r = s.in[0]; for (size_t k = 1; k < s.in.size(); ++k) { if (s.in[k].d.size() != r.d.size() || s.in[k].l.size() != r.l.size()) { mismatch = true; throw blocked{}; } for (size_t q = 0; q < r.d.size(); ++q) r.d[q] += s.in[k].d[q]; for (size_t q = 0; q < r.l.size(); ++q) r.l[q] += s.in[k].l[q]; } return r; }
  }
  class communicator { int c = 0; public: communicator() = default; communicator(int x) : c(x) {} int rank() const { return stub::pos(c); } int size() const { return stub::comms[c].members.size(); } int get() const { return c; } bool is_null() const { return c < 0; }
    communicator split(int color, int key = 0) const {
      stub::val v; v.l = {color, key}; auto &s = stub::collect(c, 100, 0, v); int p = stub::pos(c);
      if (s.newc.empty()) { int n = s.in.size(); std::vector<int> nc(n, -1); for (int i = 0; i < n; ++i) { int col = s.in[i].l[0]; if (nc[i] >= 0 || col == MPI_UNDEFINED) continue; std::vector<std::pair<long, int>> o; int id = stub::comms.size(); for (int j = 0; j < n; ++j) if (s.in[j].l[0] == col) { o.emplace_back(s.in[j].l[1], j); nc[j] = id; } std::sort(o.begin(), o.end()); stub::comm x; for (auto &q : o) x.members.push_back(stub::comms[c].members[q.second]); stub::comms.push_back(x); stub::seq.push_back(0); } stub::comms[c].slots[stub::seq[c] - 1].newc = nc; }
      return communicator{stub::comms[c].slots[stub::seq[c] - 1].newc[p]}; }
    communicator duplicate() const { return *this; } void barrier(long = 1) const { stub::collect(c, 101, 0, {}); } void abort(int) const { __builtin_abort(); } };
  template <typename T> void broadcast(T &x, communicator c = {}, int root = 0) { stub::val v; bool me = c.rank() == root; if constexpr (requires { x.resize(1); }) v.l.push_back(x.size()); if (me) stub::pack(v, x); auto &s = stub::collect(c.get(), 1, root, v); stub::val r = s.in[root]; int i = 0, j = 0; if constexpr (requires { x.resize(1); }) { x.resize(r.l[0]); j = 1; } stub::unpack(r, x, i, j); }
  // the result on the other ranks is undefined: any value will do here but the right one
  template <typename T> auto reduce(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op = MPI_SUM) { std::decay_t<T> y(x); stub::val v; stub::pack(v, y); auto r = stub::sum(stub::collect(c.get(), all ? 3 : 2, all ? 0 : root, v)); int i = 0, j = 0; if (!all && c.rank() != root) { for (auto &q : r.d) q = 0.123; for (auto &q : r.l) q = 77; } stub::unpack(r, y, i, j); return y; }
  template <typename T> auto all_reduce(T &&x, communicator c = {}, MPI_Op = MPI_SUM) { return reduce(std::forward<T>(x), c, 0, true); }
  template <typename T> void reduce_in_place(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op = MPI_SUM) { stub::val v; stub::pack(v, x); auto r = stub::sum(stub::collect(c.get(), all ? 3 : 2, all ? 0 : root, v)); int i = 0, j = 0; if (all || c.rank() == root) stub::unpack(r, x, i, j); }
  template <typename T> void all_reduce_in_place(T &&x, communicator c = {}, MPI_Op = MPI_SUM) { reduce_in_place(x, c, 0, true); }
  template <typename T> auto all_gather(T &&x, communicator c = {}) { std::decay_t<T> y(x); stub::val v; v.l.push_back(y.size()); stub::pack(v, y); auto &s = stub::collect(c.get(), 4, 0, v); std::decay_t<T> res; for (auto &q : s.in) { std::decay_t<T> p; p.resize(q.l[0]); int i = 0, j = 1; stub::unpack(q, p, i, j); for (auto &e : p) res.push_back(e); } return res; }
}
