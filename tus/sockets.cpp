// every member of the socket classes, IPv4
#include <vrtgen/vrtgen.hpp>
#ifndef DOMAIN
#define DOMAIN AF_INET
#endif
template class vrtgen::socket::socket_endpoint<DOMAIN, SOCK_STREAM>;
template class vrtgen::socket::socket_endpoint<DOMAIN, SOCK_DGRAM>;
template class vrtgen::socket::socket_base<DOMAIN, SOCK_STREAM>;
template class vrtgen::socket::socket_base<DOMAIN, SOCK_DGRAM>;
template class vrtgen::socket::stream_socket<DOMAIN>;
template class vrtgen::socket::datagram_socket<DOMAIN>;
