// One translation unit's view of the library. C35_TU names the unit.
#pragma once
#include "cspice_double.hpp"
#include "huira/huira.hpp"
struct Api {
    void (*log)(const std::string&);
    std::string (*dump)(const std::string&);
    void (*level)(int);
    int (*get_level)();
    void (*set_data)(const std::string&);
    void (*reset_data)();
    std::string (*data)();
    std::string (*lsk)();
    void (*pck)();
    double (*et)(const std::string&);
    void (*ensure)();
    void (*mk)(const std::string&);
    std::string (*exe)();
    std::string (*exe_dir)();
    std::string (*rel)(const std::string&);
    const void* (*logger)();
    const void* (*paths)();
    std::size_t (*scopes)(const char*, std::size_t (*)());
    std::size_t (*depth)();
    std::string (*platform)();
    float (*arc)(float);
    std::uint64_t (*object_id)();
};
extern Api api_a, api_b, api_c;
#define C35_DEFINE(NAME)                                                                                              \
    Api NAME = {                                                                                                      \
        [](const std::string& m) { HUIRA_LOG_INFO(m); },                                                              \
        [](const std::string& p) { return huira::dump_log(p); },                                                      \
        [](int l) { huira::set_log_level(static_cast<huira::LogLevel>(l)); },                                         \
        [] { return static_cast<int>(huira::Logger::get_level()); },                                                  \
        [](const std::string& p) { huira::set_data_dir(p); },                                                         \
        [] { huira::reset_data_dir(); },                                                                              \
        [] { return huira::data_dir().string(); },                                                                    \
        [] { return huira::spice::get_default_lsk_path().string(); },                                                        \
        [] { huira::spice::load_default_pck(); },                                                                            \
        [](const std::string& t) { return huira::spice::str2et(t); },                                                        \
        [] { huira::spice::ensure_lsk_loaded(); },                                                                           \
        [](const std::string& p) { huira::make_path(p); },                                                            \
        [] { return huira::Paths::executable_path().string(); },                                                      \
        [] { return huira::Paths::executable_dir().string(); },                                                       \
        [](const std::string& p) { return huira::Paths::relative_to_executable(p).string(); },                        \
        [] { return static_cast<const void*>(&huira::Logger::instance()); },                                          \
        [] { return static_cast<const void*>(&huira::Paths::instance()); },                                           \
        [](const char* n, std::size_t (*f)()) { HUIRA_TRACE_SCOPE(n); return f(); },                                  \
        [] { std::size_t n = 0; for (const char* s : huira::get_thread_scope_stack()) n += s[0] == 's'; return n; },  \
        [] { return huira::get_platform() + "/" + huira::get_compiler_info(); },                                      \
        [](float t) { return huira::TrajectoryArc({{0.f, 0.f, 1.f}, {t, 0.f, 1.f}}).evaluate(t).x; },                 \
        [] { huira::Scene<huira::RGB> s; return s.root.id(); },                     \
    };
