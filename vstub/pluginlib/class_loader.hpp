#ifndef VSTUB_PLUGINLIB_
#define VSTUB_PLUGINLIB_
#include <memory>
#include <string>
namespace pluginlib
{
template <class T> T * __verif_plugin(unsigned long type) noexcept;
template <class T> struct ClassLoader { ClassLoader(const char *, const char *) noexcept {} std::shared_ptr<T> createSharedInstance(const std::string & t) noexcept { return std::shared_ptr<T>(__verif_plugin<T>(t.v_)); } };
}
#define PLUGINLIB_EXPORT_CLASS(a, b)
#endif
