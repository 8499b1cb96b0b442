/* Stand-in for libgssdp (not installed in this sandbox): SSDP discovery is
   outside what is explored here; stubs.cpp has inert bodies.  */
#ifndef GSSDP_SHIM_H
#define GSSDP_SHIM_H
#include <glib-object.h>
G_BEGIN_DECLS
typedef struct _GObject GSSDPClient;
typedef struct _GObject GSSDPResourceGroup;
GSSDPClient *gssdp_client_new (const char *iface, GError **error);
void gssdp_client_set_server_id (GSSDPClient *, const char *);
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *);
const char *gssdp_client_get_host_ip (GSSDPClient *);
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *, const char *, const char *, const char *);
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean);
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *);
gboolean gssdp_client_get_active (GSSDPClient *);
G_END_DECLS
#endif
