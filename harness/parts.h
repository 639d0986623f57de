// The parts of which a harness program consists, and its main function.
#pragma once
#include "common.h"
#include "dbus.h"
#include "dbus_log.h"
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define HAVE_SANITIZER 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define HAVE_SANITIZER 1
#endif
#endif
#ifdef HAVE_SANITIZER
extern "C" void __sanitizer_set_report_fd(void*);
#endif

namespace vh {
struct Part {
    static std::map<std::string, CaseFn>& all()
    {
        static std::map<std::string, CaseFn> m;
        return m;
    }
    Part(const char* prop, const char* name, CaseFn fn) { all()[std::string(prop) + "/" + name] = fn; }
};
}

#define PART(prop, name)                                                  \
    static void prop##_##name(vh::Rng& r, uint64_t index);                \
    static vh::Part prop##_##name##_part(#prop, #name, prop##_##name);    \
    static void prop##_##name(vh::Rng& r, uint64_t index)

#ifndef NO_MAIN
vh::Report vh::R;
#ifdef CHILD_MAIN
int CHILD_MAIN(int argc, char** argv);
#endif
int main(int argc, char** argv)
{
#ifdef CHILD_MAIN
    if (argc > 1 && !strcmp(argv[1], "--child"))
        return CHILD_MAIN(argc, argv);
#endif
    vh::init(argc, argv);
    vh::R.mute = vh::R.prop == "C14";
#ifdef HAVE_SANITIZER
    // standard error may be redirected later
    __sanitizer_set_report_fd((void*)(intptr_t)dup(2));
#endif
    DBus::Log::setLevel(100);
    auto it = vh::Part::all().find(vh::R.prop + "/" + vh::R.part);
    if (it == vh::Part::all().end()) {
        fprintf(stderr, "no such part: %s/%s\n", vh::R.prop.c_str(), vh::R.part.c_str());
        return 3;
    }
    vh::runCases(it->second);
    vh::R.finish();
    fflush(nullptr);
    return 0;
}
#endif
