#include "world_impl.hh"

namespace sim {
struct CfgB : sdd::conf0 {};
std::unique_ptr<IWorld> make_world_b(Runner& r, const WorldConf& w) { return std::unique_ptr<IWorld>(new World<CfgB>(r, w)); }
} // namespace sim
