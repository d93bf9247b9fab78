#pragma once
#include "mpi.hpp"
namespace mpi {
  namespace stub { inline bool event_on_other_rank = false; inline int monitors = 0; }
  class monitor { bool local = false, fin = false; public: monitor(communicator) { ++stub::monitors; } monitor(monitor const &) = delete; ~monitor() { finalize_communications(); }
    void report_local_event() { local = true; } bool event_on_any_rank() const { return local || stub::event_on_other_rank; } bool some_event_occurred() const { return event_on_any_rank(); } bool event_on_all_ranks() { return local; } bool emergency_occured() const { return event_on_any_rank(); } void request_emergency_stop() { local = true; } void finalize_communications() { fin = true; } };
}
