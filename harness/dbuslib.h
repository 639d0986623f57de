// libdbus, the reference implementation, as a second and independent oracle.
#pragma once
#include "ref.h"
#include <memory>

namespace dbl {
// libdbus' opinion of a message: "" if it accepts it and finds the same
std::string judge(const std::string& bytes, const ref::Msg& want);
// The message as libdbus marshals it (in this machine's byte order)
std::string build(const ref::Msg& m);

// A client of a bus by libdbus, with a thread of its own
struct Client {
    std::string unique;
    virtual ~Client() {}
    // Sends it with the serial that is returned; 0 when the connection is closed
    virtual uint32_t send(const ref::Msg& m) = 0;
    virtual bool connected() = 0;
};
// Registers with the bus. What arrives is given to onMessage on the client's thread.
std::unique_ptr<Client> client(const std::string& address, std::function<void(const ref::Msg&)> onMessage, std::string& error);
}
