// Stand-in for the generated Version.h (analysis only).
#pragma once
#define DRAFTER_MAJOR_VERSION 0
#define DRAFTER_MINOR_VERSION 0
#define DRAFTER_PATCH_VERSION 0
#define DRAFTER_VERSION_IS_RELEASE 1
#define DRAFTER_PRE_RELEASE_VERSION ""
#define DRAFTER_VERSION_STRING "v0.0.0"
