// Bodies for the two libraries the sandbox lacks (see ncluaw.h, gssdp.h).
#include <cairo.h>
#include <glib-object.h>
#include <string>
#include <vector>
#include <list>
#include "ncluaw.h"
#include "libgssdp/gssdp.h"
#include "stubs.h"

std::vector<std::string> vf_nclua_log;
std::list<std::vector<std::string>> vf_nclua_inbox;

struct _ncluaw_t { cairo_surface_t *sfc; };

extern "C" {
ncluaw_t *ncluaw_open (const char *, int w, int h, char **)
{
  ncluaw_t *nw = new ncluaw_t;
  nw->sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w > 0 ? w : 1, h > 0 ? h : 1);
  vf_nclua_log.push_back ("open");
  return nw;
}
void ncluaw_close (ncluaw_t *nw)
{
  vf_nclua_log.push_back ("close");
  cairo_surface_destroy (nw->sfc);
  delete nw;
}
void ncluaw_cycle (ncluaw_t *) {}
void *ncluaw_debug_get_surface (ncluaw_t *nw) { return nw->sfc; }
ncluaw_event_t *ncluaw_receive (ncluaw_t *)
{
  if (vf_nclua_inbox.empty ()) return NULL;
  auto v = vf_nclua_inbox.front ();
  vf_nclua_inbox.pop_front ();
  ncluaw_event_t *e = new ncluaw_event_t;
  e->cls = NCLUAW_EVENT_NCL;
  e->u.ncl.type = g_strdup (v[0].c_str ());
  e->u.ncl.action = g_strdup (v[1].c_str ());
  e->u.ncl.name = g_strdup (v[2].c_str ());
  e->u.ncl.value = g_strdup (v.size () > 3 ? v[3].c_str () : "");
  return e;
}
void ncluaw_event_free (ncluaw_event_t *e)
{
  g_free ((void *) e->u.ncl.type); g_free ((void *) e->u.ncl.action);
  g_free ((void *) e->u.ncl.name); g_free ((void *) e->u.ncl.value);
  delete e;
}
void ncluaw_send_ncl_event (ncluaw_t *, const char *type, const char *action,
                            const char *name, const char *value)
{
  vf_nclua_log.push_back (std::string ("ncl ") + type + " " + action + " " + (name ? name : "")
                          + (value ? std::string ("=") + value : ""));
}
void ncluaw_send_key_event (ncluaw_t *, const char *type, const char *key)
{
  vf_nclua_log.push_back (std::string ("key ") + type + " " + key);
}

static gboolean avail = FALSE;
GSSDPClient *gssdp_client_new (const char *, GError **) { return (GObject *) g_object_new (G_TYPE_OBJECT, NULL); }
void gssdp_client_set_server_id (GSSDPClient *, const char *) {}
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *) { return (GObject *) g_object_new (G_TYPE_OBJECT, NULL); }
const char *gssdp_client_get_host_ip (GSSDPClient *) { return "127.0.0.1"; }
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *, const char *, const char *, const char *) { return 1; }
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean a) { avail = a; }
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *) { return avail; }
gboolean gssdp_client_get_active (GSSDPClient *) { return TRUE; }
}
