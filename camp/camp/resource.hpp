#ifndef VERIF_CAMP_RESOURCE_HPP
#define VERIF_CAMP_RESOURCE_HPP
#include "camp/camp.hpp"
#include "camp/resource/platform.hpp"
namespace camp {
namespace resources {
inline namespace v1 {
class HostEvent {
 public:
  bool check() const { return true; }
  void wait() const {}
};
class Event {
 public:
  bool check() const { return true; }
  void wait() const {}
};
class Host {
 public:
  Platform get_platform() { return Platform::host; }
  static Host get_default() { return Host{}; }
  HostEvent get_event() { return HostEvent{}; }
  Event get_event_erased() { return Event{}; }
  void wait() {}
  void wait_for(Event*) {}
};
class Resource {
 public:
  Resource(Host) {}
  Platform get_platform() { return Platform::host; }
  Event get_event() { return Event{}; }
  Event get_event_erased() { return Event{}; }
  void wait() {}
  void wait_for(Event*) {}
};
template <typename Res>
class EventProxy {
 public:
  explicit EventProxy(Res r) : m_r{r} {}
  EventProxy(EventProxy&&) = default;
  EventProxy(const EventProxy&) = delete;
  Event get() { return m_r.get_event_erased(); }
  operator Event() { return get(); }

 private:
  Res m_r;
};
} // namespace v1
} // namespace resources
} // namespace camp
#endif
