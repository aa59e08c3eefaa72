#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros { struct TransformListener { explicit TransformListener(Buffer &) {} }; }
