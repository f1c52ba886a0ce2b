// Layout of the I/O classes.
#include "cocpp/io/co_io.h"
#include "cocpp/io/co_net.h"
#include "cocpp/io/co_file.h"
#include "cocpp/io/co_client.h"
#include "cocpp/core/co_error.h"
#include <optional>
#include "off.h"

using namespace cocpp;
SIZE(io, co_io)
OFF(io_fd, co_io, fd__)
SIZE(net, co_net)
OFF(net_fd, co_net, fd__)
SIZE(optnet, std::optional<co_net>)
OFF(optnet_set, std::optional<co_net>, _M_payload._M_engaged)
SIZE(optfile, std::optional<co_file>)
OFF(optfile_set, std::optional<co_file>, _M_payload._M_engaged)
OFF(client_endpoint, co_client, endpoint__)
SIZE(client, co_client)
SIZE(error, co_error)
OFF(error_code, co_error, code__)
