// Log parameter of the templates: methods are opaque, so that a call cannot fail
// and cannot be confused with library code.
#pragma once
#include "log.h"
#include "vf.h"

struct vf_log {
	void put_any(abc::category_t, abc::severity_t, abc::tag_t, const char*, ...) noexcept;
	void put_anyv(abc::category_t, abc::severity_t, abc::tag_t, const char*, va_list) noexcept;
	void put_binary(abc::category_t, abc::severity_t, abc::tag_t, const void*, std::size_t) noexcept;
	void put_blank_line(abc::category_t, abc::severity_t) noexcept;
};
