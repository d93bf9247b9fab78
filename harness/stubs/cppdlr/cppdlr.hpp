// Model of the DLR library: the frequencies and nodes are whatever the harness supplies, the kernels are recorded calls.
#pragma once
#include <nda/nda.hpp>
#include <nda/h5.hpp>
#include <h5/h5.hpp>
#include <complex>
namespace cppdlr {
  enum statistic_t { Boson = 0, Fermion = 1 };
  namespace stub { // set by the harness
    inline int n = 3; inline double rf[16], it[16]; inline long ifn[16];
    inline double (*k_it)(double, double) = nullptr; inline std::complex<double> (*k_if)(int, double, int) = nullptr;
    inline double lambda = 0, eps = 0; inline int builds = 0;
  } // namespace stub
  inline nda::vector<double> build_dlr_rf(double lambda, double eps, bool = false) { stub::builds++; stub::lambda = lambda; stub::eps = eps; nda::vector<double> r(stub::n); for (int i = 0; i < stub::n; i++) r(i) = stub::rf[i]; return r; }
  class imtime_ops {
    double lambda_ = 0; nda::vector<double> rf_, it_;
    public:
    imtime_ops() = default;
    imtime_ops(double lambda, nda::vector<double> const &rf) : lambda_(lambda), rf_(rf), it_(rf.size()) { for (int i = 0; i < rf.size(); i++) it_(i) = stub::it[i]; }
    nda::vector<double> const &get_itnodes() const { return it_; } nda::vector<double> const &get_rfnodes() const { return rf_; } double lambda() const { return lambda_; }
    static std::string hdf5_format() { return "CPPDLR_ImtimeOps"; }
    friend void h5_write(h5::group fg, std::string const &s, imtime_ops const &m) { auto gr = fg.create_group(s); h5::write(gr, "lambda", m.lambda_); h5::write(gr, "rf", m.rf_); h5::write(gr, "it", m.it_); }
    friend void h5_read(h5::group fg, std::string const &s, imtime_ops &m) { auto gr = fg.open_group(s); m.lambda_ = h5::read<double>(gr, "lambda"); m.rf_ = h5::read<nda::vector<double>>(gr, "rf"); m.it_ = h5::read<nda::vector<double>>(gr, "it"); }
  };
  class imfreq_ops {
    double lambda_ = 0; nda::vector<double> rf_; nda::vector<long> if_; int st_ = 0;
    public:
    imfreq_ops() = default;
    imfreq_ops(double lambda, nda::vector<double> const &rf, statistic_t st) : lambda_(lambda), rf_(rf), if_(rf.size()), st_(st) { for (int i = 0; i < rf.size(); i++) if_(i) = stub::ifn[i]; }
    nda::vector<long> const &get_ifnodes() const { return if_; } nda::vector<double> const &get_rfnodes() const { return rf_; } double lambda() const { return lambda_; } int statistic() const { return st_; }
    static std::string hdf5_format() { return "CPPDLR_ImfreqOps"; }
    friend void h5_write(h5::group fg, std::string const &s, imfreq_ops const &m) { auto gr = fg.create_group(s); h5::write(gr, "lambda", m.lambda_); h5::write(gr, "rf", m.rf_); h5::write(gr, "if", m.if_); h5::write(gr, "st", m.st_); }
    friend void h5_read(h5::group fg, std::string const &s, imfreq_ops &m) { auto gr = fg.open_group(s); m.lambda_ = h5::read<double>(gr, "lambda"); m.rf_ = h5::read<nda::vector<double>>(gr, "rf"); m.if_ = h5::read<nda::vector<long>>(gr, "if"); m.st_ = h5::read<int>(gr, "st"); }
  };
  inline double k_it(double t, double om) { return stub::k_it(t, om); }
  inline std::complex<double> k_if(int n, double om, statistic_t st) { return stub::k_if(n, om, st); }
} // namespace cppdlr
