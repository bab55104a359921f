// the messaging client
#include <vrtgen/vrtgen.hpp>
#include <vrtgen/nats/message.hpp>
#include <vrtgen/nats/client.hpp>
