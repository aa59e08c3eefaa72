// ROS angles package: angles normalised to [-pi, pi]
#ifndef FAKE_ANGLES_
#define FAKE_ANGLES_
#include <cmath>
namespace angles
{
inline double from_degrees(double d) { return d * M_PI / 180.0; }
inline double to_degrees(double d) { return d * 180.0 / M_PI; }
inline double normalize_angle_positive(double a) { const double r = fmod(a, 2.0 * M_PI); return r < 0 ? r + 2.0 * M_PI : r; }
inline double normalize_angle(double a) { const double r = fmod(a + M_PI, 2.0 * M_PI); return r <= 0.0 ? r + M_PI : r - M_PI; }
inline double shortest_angular_distance(double from, double to) { return normalize_angle(to - from); }
}
#endif
