// ROS angles package, as published (normalize to (-pi, pi])
#ifndef VSTUB_ANGLES_
#define VSTUB_ANGLES_
#include <cmath>
namespace angles
{
double __verif_normalize_angle(double a) noexcept;   // r in (-pi, pi], r == a - 2*pi*k
inline double from_degrees(double d) noexcept { return d * M_PI / 180.0; }
inline double to_degrees(double d) noexcept { return d * 180.0 / M_PI; }
inline double normalize_angle(double a) noexcept { return __verif_normalize_angle(a); }
inline double shortest_angular_distance(double from, double to) noexcept { return normalize_angle(to - from); }
}
#endif
