// The 13 ways to write a list of texts.
#ifndef MC_FORMS_HPP
#define MC_FORMS_HPP
#include <utility>
#include "observe.hpp"
namespace mc {
typedef blet::Args Args;
typedef blet::args::Vector Vector;

enum { MAXN = 20, FORMS = 13 };
static const char* const kForms[] = {"const char*[]", "const char* const[]", "std::string[]", "const std::string[]", "Vector(initializer_list)", "Args::vector(...)", "Vector + const char*",
                                     "Vector + std::string", "Vector + char[]", "push_back", "Vector(size) and []", "copied Vector", "Vector(first) + ..."};

template<size_t... I>
static Vector helper(const char* const* e, std::index_sequence<I...>) { return Args::vector(e[I]...); }
template<size_t... I>
static Vector init(const char* const* e, std::index_sequence<I...>) { return Vector{std::string(e[I])...}; }

template<size_t N, typename F>
static void withForm(int form, const char* const* e, F use) {
    switch (form) {
        case 0: {
            const char* a[N];
            for (size_t i = 0; i < N; ++i) { a[i] = e[i]; }
            use(a);
            break;
        }
        case 1: {
            struct Holder { const char* a[N]; } h;
            for (size_t i = 0; i < N; ++i) { h.a[i] = e[i]; }
            const Holder& c = h;
            use(c.a);
            break;
        }
        case 2: {
            std::string a[N];
            for (size_t i = 0; i < N; ++i) { a[i] = e[i]; }
            use(a);
            break;
        }
        case 3: {
            struct Holder { std::string a[N]; } h;
            for (size_t i = 0; i < N; ++i) { h.a[i] = e[i]; }
            const Holder& c = h;
            use(c.a);
            break;
        }
        case 4: use(init(e, std::make_index_sequence<N>())); break;
        case 5: use(helper(e, std::make_index_sequence<N>())); break;
        case 6: {
            Vector v;
            for (size_t i = 0; i < N; ++i) {
                const char* p = e[i];
                v + p;
            }
            use(v);
            break;
        }
        case 7: {
            Vector v;
            for (size_t i = 0; i < N; ++i) { v + std::string(e[i]); }
            use(v);
            break;
        }
        case 8: {
            Vector v;
            for (size_t i = 0; i < N; ++i) {
                char b[64];
                strcpy(b, e[i]);
                v + b;
            }
            use(v);
            break;
        }
        case 9: {
            Vector v;
            for (size_t i = 0; i < N; ++i) { v.push_back(e[i]); }
            use(v);
            break;
        }
        case 10: {
            Vector v((int)N);
            for (size_t i = 0; i < N; ++i) { v[i] = e[i]; }
            use(v);
            break;
        }
        case 11: {
            Vector v = init(e, std::make_index_sequence<N>()), w(v);
            v.clear();
            use(w);
            break;
        }
        default: {
            const char* p = e[0];
            Vector v(p);
            for (size_t i = 1; i < N; ++i) { v + std::string(e[i]); }
            use(v);
            break;
        }
    }
}
// values in an order that is neither sorted nor reversed
static Strs elements(size_t n, int kind, int order) {
    Strs r;
    for (size_t i = 0; i < n; ++i) {
        std::string s;
        switch (kind) {
            case 0: s = i % 3 == 1 ? "-" + std::string(1, (char)('A' + i)) : "--flag" + std::string(1, (char)('a' + i)); break;
            case 1: s = i == 3 ? "" : i == 5 ? "with blank" : i == 7 ? "longer than the buffer of a short string" : "value" + str(i); break;
            default: s = "choice" + str(i); break;
        }
        r.push_back(s);
    }
    if (order == 1) { std::reverse(r.begin(), r.end()); }
    if (order == 2) {
        Strs t;
        for (size_t i = 0; i < n; ++i) { t.push_back(r[i % 2 ? n - 1 - i / 2 : i / 2]); }
        r = t;
    }
    return r;
}

} // namespace mc
#endif
