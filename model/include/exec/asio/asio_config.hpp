#pragma once
#define STDEXEC_ASIO_USES_STANDALONE 0
#define STDEXEC_ASIO_USES_BOOST 1
#define BOOST_ASIO_HEADER_ONLY
#include <boost/asio/cancellation_signal.hpp>
#include <boost/asio/associated_executor.hpp>
#include <boost/asio/associated_allocator.hpp>
#include <boost/asio/associated_cancellation_slot.hpp>
#include <boost/asio/async_result.hpp>
#include <boost/asio/query.hpp>
#include <boost/asio/prefer.hpp>
#include <boost/asio/require.hpp>
#include <boost/asio/error.hpp>
#include <boost/system/errc.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#define ASIOEXEC_ASIO_NAMESPACE boost::asio
namespace experimental::execution::asio {
  namespace asio_impl = ::boost::asio;
  using error_code = ::boost::system::error_code;
  using error_condition = ::boost::system::error_condition;
  namespace errc = ::boost::system::errc;
  using system_error = ::boost::system::system_error;
}
namespace exec = experimental::execution;
