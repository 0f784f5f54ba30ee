#include <boost/winapi/all.hpp>
