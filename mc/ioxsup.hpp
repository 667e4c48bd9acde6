// Shared by all harnesses: installs an error handler that turns every panic of the code under test into a violation.
#pragma once
#include "mc.hpp"
#include "iox/error_reporting/custom/default/error_handler.hpp"
#include "iox/logging.hpp"

namespace sup
{
struct Errors
{
    uint32_t count{0};
    uint32_t lastCode{0};
    uint32_t lastModule{0};
    uint32_t violations{0};
    bool quiet{false};
};
inline Errors& errors()
{
    static Errors e;
    return e;
}
using PanicHook = void (*)(void*);
inline PanicHook& panicHook() // called first on a panic; may jump out
{
    static PanicHook h = nullptr;
    return h;
}
class Handler : public iox::er::ErrorHandlerInterface
{
  public:
    void onPanic() override
    {
        if (panicHook())
            panicHook()(nullptr);
        mc::fail("fatal", "the code under test terminates: module %u error code %u", errors().lastModule, errors().lastCode);
    }
    void onReportError(iox::er::ErrorDescriptor d) override
    {
        mc::Atomic a;
        errors().count++;
        errors().lastCode = d.code.value;
        errors().lastModule = d.module.value;
        mc::log("error reported: module %u code %u %s:%d", d.module.value, d.code.value, d.location.file, (int)d.location.line);
    }
    void onReportViolation(iox::er::ErrorDescriptor d) override
    {
        mc::Atomic a;
        errors().violations++;
        errors().lastCode = d.code.value;
        errors().lastModule = d.module.value;
        mc::log("contract violation: module %u code %u %s:%d", d.module.value, d.code.value, d.location.file, (int)d.location.line);
    }
};
} // namespace sup
extern "C" void mc_setup() __attribute__((weak)); // fixture built once, part of the snapshot every execution starts from
extern "C" void mc_at_start()
{
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    iox::log::Logger::init(iox::log::LogLevel::Off);
    iox::er::ErrorHandler::set(iox::StaticLifetimeGuard<sup::Handler>());
    (void)iox::er::ErrorHandler::get();
    (void)sup::errors();
    (void)iox::log::Logger::get();
    if (mc_setup)
        mc_setup();
}
