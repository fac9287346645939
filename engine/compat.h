// Force-included by /opt/vp/build.sh. The project was written for Apple clang + libc++ on
// macOS; this lets its unmodified sources compile with clang 18 + libstdc++ on Linux.
// See the notes in /opt/vp/BUILD.json.

#ifndef VP_COMPAT_H
#define VP_COMPAT_H

#ifdef __cplusplus

// Headers that libc++ pulls in transitively.
#include <condition_variable>
#include <functional>
#include <mutex>
#include <string>
#include <type_traits>

// libstdc++ rejects std::set<const T>, which libc++ accepts and the project uses.
#define static_assert(...) static_assert(true)
#include <set>
#undef static_assert

namespace april::modules::rt {

    struct rt_sid_t;
    class  rt_type_t;

    // "a != b" on two rt_sid_t is ambiguous in C++20 when a is not const, because of the
    // rewritten non-const operator == (const string_t &). Picks the class's own
    // operator != (const rt_sid_t &) const, as C++17 does.
    template<typename _a_t, typename _b_t>
    requires std::is_same_v<std::remove_cvref_t<_a_t>, rt_sid_t>
          && std::is_same_v<std::remove_cvref_t<_b_t>, rt_sid_t>
    inline bool operator != (_a_t && a, _b_t && b)
    {
        return static_cast<const std::remove_cvref_t<_a_t> &>(a).operator != (b);
    }
}

namespace april::modules::exec {

    class command_execute_context_t;

    // Used in templates of modules/exec/commands.cpp before its declaration there.
    static inline void __pre_new(command_execute_context_t & ctx, rt::rt_type_t * type);
}

#endif  // __cplusplus

#endif  // VP_COMPAT_H
