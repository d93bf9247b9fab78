#pragma once
#include "mpi.hpp"
