#pragma once
#include <iosfwd>
namespace std { class locale; template <typename C> class ctype; template <typename F> const F &use_facet(const locale &); }
