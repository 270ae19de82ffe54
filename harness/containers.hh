// Payload types used by the container harnesses.
#pragma once
#include "vf.hh"
using Ptr = const void *;	// a payload compared by identity
struct Wide {				// 12 bytes, alignment 4: bytes and elements never coincide
	uint32_t a, b, c;
	bool operator==(const Wide &) const = default;
};
