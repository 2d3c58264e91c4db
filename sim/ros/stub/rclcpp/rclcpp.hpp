// Stand-in for rclcpp: parameters, topics and timers of a node, with every delivery and expiry decided by the simulator.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

#include "builtin_interfaces/msg/time.hpp"

namespace rclcpp
{
enum class ParameterType
{
  PARAMETER_NOT_SET = 0, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY,
  PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY
};

namespace exceptions
{
struct InvalidParameterTypeException : std::runtime_error {using std::runtime_error::runtime_error;};
struct ParameterNotDeclaredException : std::runtime_error {using std::runtime_error::runtime_error;};
struct ParameterAlreadyDeclaredException : std::runtime_error {using std::runtime_error::runtime_error;};
struct InvalidTopicNameError : std::runtime_error {using std::runtime_error::runtime_error;};
}
struct ParameterTypeException : std::runtime_error {using std::runtime_error::runtime_error;};

class ParameterValue
{
public:
  ParameterValue() {}
  explicit ParameterValue(bool v) : t(ParameterType::PARAMETER_BOOL), b(v) {}
  explicit ParameterValue(int v) : t(ParameterType::PARAMETER_INTEGER), i(v) {}
  explicit ParameterValue(int64_t v) : t(ParameterType::PARAMETER_INTEGER), i(v) {}
  explicit ParameterValue(long long v) : t(ParameterType::PARAMETER_INTEGER), i(v) {}
  explicit ParameterValue(float v) : t(ParameterType::PARAMETER_DOUBLE), d(v) {}
  explicit ParameterValue(double v) : t(ParameterType::PARAMETER_DOUBLE), d(v) {}
  explicit ParameterValue(const char * v) : t(ParameterType::PARAMETER_STRING), s(v) {}
  explicit ParameterValue(const std::string & v) : t(ParameterType::PARAMETER_STRING), s(v) {}
  explicit ParameterValue(const std::vector<bool> & v) : t(ParameterType::PARAMETER_BOOL_ARRAY), vb(v) {}
  explicit ParameterValue(const std::vector<int64_t> & v) : t(ParameterType::PARAMETER_INTEGER_ARRAY), vi(v) {}
  explicit ParameterValue(const std::vector<int> & v) : t(ParameterType::PARAMETER_INTEGER_ARRAY), vi(v.begin(), v.end()) {}
  explicit ParameterValue(const std::vector<double> & v) : t(ParameterType::PARAMETER_DOUBLE_ARRAY), vd(v) {}
  explicit ParameterValue(const std::vector<float> & v) : t(ParameterType::PARAMETER_DOUBLE_ARRAY), vd(v.begin(), v.end()) {}
  explicit ParameterValue(const std::vector<std::string> & v) : t(ParameterType::PARAMETER_STRING_ARRAY), vs(v) {}
  ParameterType get_type() const {return t;}
  void need(ParameterType w) const {if (t != w) {throw ParameterTypeException("parameter has another type");}}
  void to(bool & o) const {need(ParameterType::PARAMETER_BOOL); o = b;}
  void to(double & o) const {need(ParameterType::PARAMETER_DOUBLE); o = d;}
  void to(float & o) const {need(ParameterType::PARAMETER_DOUBLE); o = static_cast<float>(d);}
  void to(int & o) const {need(ParameterType::PARAMETER_INTEGER); o = static_cast<int>(i);}
  void to(unsigned & o) const {need(ParameterType::PARAMETER_INTEGER); o = static_cast<unsigned>(i);}
  void to(int64_t & o) const {need(ParameterType::PARAMETER_INTEGER); o = i;}
  void to(uint64_t & o) const {need(ParameterType::PARAMETER_INTEGER); o = static_cast<uint64_t>(i);}
  void to(std::string & o) const {need(ParameterType::PARAMETER_STRING); o = s;}
  void to(std::vector<bool> & o) const {need(ParameterType::PARAMETER_BOOL_ARRAY); o = vb;}
  void to(std::vector<int64_t> & o) const {need(ParameterType::PARAMETER_INTEGER_ARRAY); o = vi;}
  void to(std::vector<double> & o) const {need(ParameterType::PARAMETER_DOUBLE_ARRAY); o = vd;}
  void to(std::vector<std::string> & o) const {need(ParameterType::PARAMETER_STRING_ARRAY); o = vs;}
  template<typename T> T get() const {T o; to(o); return o;}

private:
  ParameterType t{ParameterType::PARAMETER_NOT_SET};
  bool b{false};
  int64_t i{0};
  double d{0};
  std::string s;
  std::vector<bool> vb;
  std::vector<int64_t> vi;
  std::vector<double> vd;
  std::vector<std::string> vs;
};

class Parameter
{
public:
  Parameter() {}
  template<typename T> Parameter(const std::string & n, const T & v) : name(n), value(v) {}
  Parameter(const std::string & n, const ParameterValue & v) : name(n), value(v) {}
  const std::string & get_name() const {return name;}
  ParameterType get_type() const {return value.get_type();}
  const ParameterValue & get_parameter_value() const {return value;}
  template<typename T> T get_value() const {return value.get<T>();}
  bool as_bool() const {return value.get<bool>();}
  int64_t as_int() const {return value.get<int64_t>();}
  double as_double() const {return value.get<double>();}
  std::string as_string() const {return value.get<std::string>();}
  std::vector<bool> as_bool_array() const {return value.get<std::vector<bool>>();}
  std::vector<int64_t> as_integer_array() const {return value.get<std::vector<int64_t>>();}
  std::vector<double> as_double_array() const {return value.get<std::vector<double>>();}
  std::vector<std::string> as_string_array() const {return value.get<std::vector<std::string>>();}

private:
  std::string name;
  ParameterValue value;
};

class QoS
{
public:
  QoS(size_t d) : depth(d) {}
  QoS(int d) : depth(static_cast<size_t>(d)) {}
  QoS & keep_last(size_t d) {depth = d; return *this;}
  QoS & keep_all() {depth = static_cast<size_t>(-1); return *this;}
  QoS & reliable() {return *this;}
  QoS & best_effort() {return *this;}
  QoS & durability_volatile() {return *this;}
  QoS & transient_local() {return *this;}
  size_t depth;
};
struct SensorDataQoS : QoS {SensorDataQoS() : QoS(5) {}};
struct SystemDefaultsQoS : QoS {SystemDefaultsQoS() : QoS(10) {}};
struct KeepLast : QoS {explicit KeepLast(size_t d) : QoS(d) {}};

// ------------------------------------------------------------------ what the simulator sees and decides
namespace sim
{
struct Sub
{
  std::string topic;
  size_t depth;
  const std::type_info * type;
  std::deque<std::pair<int, std::shared_ptr<void>>> queue;      // tag of the publication, message
  std::function<void(std::shared_ptr<void>)> run;
  bool alive{true};
};
struct Timer {int64_t period, next; std::function<void()> run; bool alive{true};};
struct Out {std::string topic; const std::type_info * type; std::shared_ptr<void> msg;};
struct Bus
{
  std::map<std::string, ParameterValue> overrides;
  std::vector<std::shared_ptr<Sub>> subs;
  std::vector<std::shared_ptr<Timer>> timers;
  std::vector<Out> out;
  int64_t now{0};
  std::function<void()> spin;
  std::vector<int> lost;
  static std::string full(const std::string & node, const std::string & t)
  {
    if (t.empty()) {throw exceptions::InvalidTopicNameError("topic name must not be empty");}
    if (t[0] == '/') {return t;}
    if (t[0] == '~') {return "/" + node + t.substr(1);}
    return "/" + t;
  }
  template<typename T> void publish(int tag, const std::string & topic, std::shared_ptr<T> m)
  {
    for (auto & s : subs) {
      if (!s->alive || s->topic != topic || *s->type != typeid(T)) {continue;}
      s->queue.emplace_back(tag, m);
      while (s->queue.size() > s->depth) {lost.push_back(s->queue.front().first); s->queue.pop_front();}
    }
  }
};
inline Bus & bus() {static Bus b; return b;}
}

class Logger {};
inline Logger get_logger(const std::string &) {return Logger();}

class Time
{
public:
  Time(int64_t n = 0) : ns(n) {}
  Time(int32_t s, uint32_t n) : ns(static_cast<int64_t>(s) * 1000000000 + n) {}
  Time(const builtin_interfaces::msg::Time & t) : ns(static_cast<int64_t>(t.sec) * 1000000000 + t.nanosec) {}
  double seconds() const {return static_cast<double>(ns) * 1e-9;}
  int64_t nanoseconds() const {return ns;}

private:
  int64_t ns;
};

template<typename T> class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<T>>;
  explicit Subscription(std::shared_ptr<sim::Sub> s) : m(s) {}
  ~Subscription() {m->alive = false; m->queue.clear();}
  std::string get_topic_name() const {return m->topic;}

private:
  std::shared_ptr<sim::Sub> m;
};

template<typename T> class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<T>>;
  explicit Publisher(const std::string & t) : topic(t) {}
  void publish(const T & v) {sim::bus().out.push_back({topic, &typeid(T), std::make_shared<T>(v)});}
  void publish(std::unique_ptr<T> v) {publish(*v);}
  std::string get_topic_name() const {return topic;}

private:
  std::string topic;
};

class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  explicit TimerBase(std::shared_ptr<sim::Timer> t) : m(t) {}
  virtual ~TimerBase() {m->alive = false;}
  void cancel() {m->alive = false;}
  void reset() {m->alive = true; m->next = sim::bus().now + m->period;}

private:
  std::shared_ptr<sim::Timer> m;
};
using WallTimer = TimerBase;

struct NodeOptions {};

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & n, const NodeOptions & = NodeOptions()) : m_node_name(n) {}
  virtual ~Node() {}
  const char * get_name() const {return m_node_name.c_str();}
  Logger get_logger() const {return Logger();}
  Time now() const {return Time(sim::bus().now);}

  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & def)
  {
    if (m_params.count(n)) {throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");}
    auto o = sim::bus().overrides.find(n);
    if (o == sim::bus().overrides.end()) {return m_params[n] = def;}
    if (def.get_type() != ParameterType::PARAMETER_NOT_SET && o->second.get_type() != def.get_type()) {
      throw exceptions::InvalidParameterTypeException("parameter '" + n + "' has invalid type");
    }
    return m_params[n] = o->second;
  }
  template<typename T> auto declare_parameter(const std::string & n, const T & def)
  {
    return declare_parameter(n, ParameterValue(def)).template get<typename kind<T>::type>();
  }
  std::string declare_parameter(const std::string & n, const char * def) {return declare_parameter(n, ParameterValue(def)).get<std::string>();}
  bool has_parameter(const std::string & n) const {return m_params.count(n) != 0;}
  Parameter get_parameter(const std::string & n) const
  {
    auto i = m_params.find(n);
    if (i == m_params.end()) {throw exceptions::ParameterNotDeclaredException("parameter '" + n + "' is not declared");}
    return Parameter(n, i->second);
  }
  template<typename T> bool get_parameter(const std::string & n, T & o) const
  {
    auto i = m_params.find(n);
    if (i == m_params.end()) {return false;}
    o = i->second.template get<T>();
    return true;
  }
  template<typename T> bool get_parameter_or(const std::string & n, T & o, const T & d) const
  {
    if (get_parameter(n, o)) {return true;}
    o = d;
    return false;
  }
  void set_parameter(const Parameter & p)
  {
    auto i = m_params.find(p.get_name());
    if (i == m_params.end()) {throw exceptions::ParameterNotDeclaredException("parameter '" + p.get_name() + "' is not declared");}
    if (i->second.get_type() == p.get_type()) {i->second = p.get_parameter_value();}
  }

  template<typename T, typename F>
  std::shared_ptr<Subscription<T>> create_subscription(const std::string & topic, const QoS & q, F && f)
  {
    auto s = std::make_shared<sim::Sub>();
    s->topic = sim::Bus::full(m_node_name, topic); s->depth = q.depth; s->type = &typeid(T);
    typename std::decay<F>::type g(std::forward<F>(f));
    s->run = [g](std::shared_ptr<void> v) mutable {
        auto m = std::static_pointer_cast<T>(v);
        if constexpr (std::is_invocable_v<decltype(g), std::shared_ptr<T>>) {g(m);
        } else if constexpr (std::is_invocable_v<decltype(g), const T &>) {g(*m);
        } else {g(std::make_unique<T>(*m));}
      };
    sim::bus().subs.push_back(s);
    return std::make_shared<Subscription<T>>(s);
  }
  template<typename T> std::shared_ptr<Publisher<T>> create_publisher(const std::string & topic, const QoS &)
  {
    return std::make_shared<Publisher<T>>(sim::Bus::full(m_node_name, topic));
  }
  template<typename R, typename P, typename F>
  std::shared_ptr<WallTimer> create_wall_timer(std::chrono::duration<R, P> d, F f)
  {
    auto t = std::make_shared<sim::Timer>();
    t->period = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
    t->next = sim::bus().now + t->period; t->run = f;
    sim::bus().timers.push_back(t);
    return std::make_shared<WallTimer>(t);
  }
  template<typename R, typename P, typename F> auto create_timer(std::chrono::duration<R, P> d, F f) {return create_wall_timer(d, f);}

private:
  template<typename T, typename = void> struct kind {using type = T;};
  template<typename T> struct kind<T, typename std::enable_if<std::is_array<T>::value>::type> {using type = std::string;};
  std::string m_node_name;
  std::map<std::string, ParameterValue> m_params;
};

inline void init(int, char **) {}
inline void init(int, const char * const *) {}
inline bool ok() {return true;}
inline bool shutdown() {return true;}
inline void spin(std::shared_ptr<Node>) {sim::bus().spin();}
namespace executors
{
class SingleThreadedExecutor
{
public:
  void add_node(std::shared_ptr<Node>) {}
  void spin() {sim::bus().spin();}
};
}
}  // namespace rclcpp

#define RCLCPP_STUB_(...) do {char rclcpp_b_[2048]; std::snprintf(rclcpp_b_, sizeof rclcpp_b_, __VA_ARGS__);} while (0)
#define RCLCPP_DEBUG(l, ...) RCLCPP_STUB_(__VA_ARGS__)
#define RCLCPP_INFO(l, ...) RCLCPP_STUB_(__VA_ARGS__)
#define RCLCPP_WARN(l, ...) RCLCPP_STUB_(__VA_ARGS__)
#define RCLCPP_ERROR(l, ...) RCLCPP_STUB_(__VA_ARGS__)
#define RCLCPP_FATAL(l, ...) RCLCPP_STUB_(__VA_ARGS__)
#define RCLCPP_STUBS_(x) do {std::ostringstream rclcpp_o_; rclcpp_o_ << x;} while (0)
#define RCLCPP_DEBUG_STREAM(l, x) RCLCPP_STUBS_(x)
#define RCLCPP_INFO_STREAM(l, x) RCLCPP_STUBS_(x)
#define RCLCPP_WARN_STREAM(l, x) RCLCPP_STUBS_(x)
#define RCLCPP_ERROR_STREAM(l, x) RCLCPP_STUBS_(x)
#define RCLCPP_FATAL_STREAM(l, x) RCLCPP_STUBS_(x)
