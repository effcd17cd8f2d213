#include <boost/asio.hpp>
