// Stand-in for the LDPK library (not available offline), used by the checks only.
#pragma once
namespace ldpk { struct vec2d {}; struct mat2d {}; }
