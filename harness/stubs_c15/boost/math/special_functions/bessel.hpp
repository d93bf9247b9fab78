// The Bessel functions are arbitrary functions of order and argument: their values are symbolic, one per argument pair.
#pragma once
#include <cassert>
namespace boost::math { double cyl_bessel_j(double nu, double x); double cyl_bessel_i(double nu, double x); }
