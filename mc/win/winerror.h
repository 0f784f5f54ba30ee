// error codes come from all.hpp
