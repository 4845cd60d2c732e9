#ifndef VERIF_SHIM_APRILTAGS_36H11_H_
#define VERIF_SHIM_APRILTAGS_36H11_H_
#include "TagDetector.h"
namespace AprilTags {
static const TagCodes tagCodes36h11;
}
#endif
