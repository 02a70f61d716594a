#include "world_impl.hh"

namespace sim {
struct CfgU : sdd::conf2 {};
std::unique_ptr<IWorld> make_world_u(Runner& r, const WorldConf& w) { return std::unique_ptr<IWorld>(new World<CfgU>(r, w)); }
} // namespace sim
