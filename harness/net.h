// The network, played by the harness: the player's HTTP server is reached through
// socket pairs (no port is opened), its outgoing requests are recorded.
#ifndef NET_H
#define NET_H
#include <libsoup/soup.h>
#include <gio/gio.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
#include <set>
#include <map>
#include <string>
#include <vector>
#include "vf.h"

namespace net {
typedef std::string S;
struct Out { S url, method, body; SoupMessage *msg; SoupSession *ses; SoupSessionCallback cb; gpointer ud; };
static std::vector<Out> out;                     // sent, not answered yet
static std::vector<SoupServer *> up;             // servers that listen
static std::vector<unsigned> ports;              // ports they were given, in the same order
static std::set<unsigned> busy;                  // ports that others use
static unsigned listens = 0, sent = 0;
static void reset () { out.clear (); up.clear (); ports.clear (); busy.clear (); listens = sent = 0; }
// The remote device answers the oldest outstanding request.
static void answer (unsigned status)
{
  Out o = out.front (); out.erase (out.begin ());
  if (!o.msg) return;
  soup_message_set_status (o.msg, status);
  if (o.cb) o.cb (o.ses, o.msg, o.ud);
  g_object_unref (o.msg); g_object_unref (o.ses);
}
// Requests from the given one on are lost.
static void forget (size_t from) { for (; out.size () > from; out.pop_back ()) if (out.back ().msg) { g_object_unref (out.back ().msg); g_object_unref (out.back ().ses); } }
static void drop () { while (!out.empty ()) answer (SOUP_STATUS_CANCELLED); }
struct Resp { int status = 0; S head, body; };
// Sends a request to a listening server; status 0: no answer.
static Resp request (SoupServer *srv, const S &method, const S &path, const S &body, const S &extra = "")
{
  Resp r; int fd[2]; if (socketpair (AF_UNIX, SOCK_STREAM, 0, fd)) return r;
  GSocket *sock = g_socket_new_from_fd (fd[0], nullptr); if (!sock) { close (fd[0]); close (fd[1]); return r; }
  GSocketConnection *con = g_socket_connection_factory_create_connection (sock);
  soup_server_accept_iostream (srv, G_IO_STREAM (con), nullptr, nullptr, nullptr);
  S q = method + " " + path + " HTTP/1.1\r\nHost: ginga\r\nConnection: close\r\n" + extra + vf::fmt ("Content-Length: %zu\r\n\r\n", body.size ()) + body;
  fcntl (fd[1], F_SETFL, O_NONBLOCK); size_t off = 0; S in; bool eof = false;
  for (int k = 0; k < 20000 && !eof; k++)
    {
      if (off < q.size ()) { ssize_t n = write (fd[1], q.data () + off, q.size () - off); if (n > 0) off += n; else if (n < 0 && errno != EAGAIN) off = q.size (); }
      while (g_main_context_iteration (nullptr, FALSE));
      char b[4096]; for (ssize_t n; (n = read (fd[1], b, sizeof b)) != -1; ) { if (n == 0) { eof = true; break; } in.append (b, n); }
    }
  close (fd[1]); while (g_main_context_iteration (nullptr, FALSE));
  g_object_unref (con); g_object_unref (sock);
  size_t e = in.find ("\r\n\r\n"); if (e == S::npos || sscanf (in.c_str (), "HTTP/1.%*d %d", &r.status) != 1) { r.status = 0; return r; }
  r.head = in.substr (0, e + 2); r.body = in.substr (e + 4); return r;
}
static S header (const Resp &r, const S &name)
{ size_t p = r.head.find ("\r\n" + name + ": "); if (p == S::npos) return "(none)"; p += name.size () + 4; return r.head.substr (p, r.head.find ("\r\n", p) - p); }
}
extern "C" gboolean __wrap_soup_server_listen_all (SoupServer *s, guint port, SoupServerListenOptions, GError **e)
{
  net::listens++; bool mine = false; for (auto p : net::ports) mine |= p == port;
  if (mine || net::busy.count (port)) { g_set_error (e, G_IO_ERROR, G_IO_ERROR_ADDRESS_IN_USE, "port %u is in use", port); return FALSE; }
  net::up.push_back (s); net::ports.push_back (port); return TRUE;
}
extern "C" void __real_soup_server_disconnect (SoupServer *);
extern "C" void __wrap_soup_server_disconnect (SoupServer *s)
{
  for (size_t k = 0; k < net::up.size (); k++) if (net::up[k] == s) { net::up.erase (net::up.begin () + k); net::ports.erase (net::ports.begin () + k); break; }
  __real_soup_server_disconnect (s);
}
extern "C" void __wrap_soup_session_queue_message (SoupSession *s, SoupMessage *m, SoupSessionCallback cb, gpointer ud)
{
  net::sent++; net::Out o; o.msg = m; o.ses = s; o.cb = cb; o.ud = ud;
  if (m) { g_object_ref (s); char *u = soup_uri_to_string (soup_message_get_uri (m), FALSE); o.url = u; g_free (u); o.method = m->method; SoupBuffer *b = soup_message_body_flatten (m->request_body); o.body.assign (b->data, b->length); soup_buffer_free (b); }
  else o.url = "(nowhere)";
  net::out.push_back (o);
}
#endif
