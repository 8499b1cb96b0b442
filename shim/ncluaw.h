/* Stand-in for the NCLua wrapper's header (not installed in this sandbox).
   Same names and shapes as the calls in lib/PlayerLua.cpp; the bodies are in
   stubs.cpp and record what they are given.  */
#ifndef NCLUAW_H
#define NCLUAW_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct _ncluaw_t ncluaw_t;
typedef enum { NCLUAW_EVENT_UNKNOWN = 0, NCLUAW_EVENT_KEY, NCLUAW_EVENT_NCL,
               NCLUAW_EVENT_USER } ncluaw_event_class_t;
typedef struct _ncluaw_event_t {
  ncluaw_event_class_t cls;
  union {
    struct { const char *type; const char *action; const char *name; const char *value; } ncl;
    struct { const char *type; const char *key; } key;
  } u;
} ncluaw_event_t;
ncluaw_t *ncluaw_open (const char *path, int w, int h, char **errmsg);
void ncluaw_close (ncluaw_t *);
void ncluaw_cycle (ncluaw_t *);
void *ncluaw_debug_get_surface (ncluaw_t *);
ncluaw_event_t *ncluaw_receive (ncluaw_t *);
void ncluaw_event_free (ncluaw_event_t *);
void ncluaw_send_ncl_event (ncluaw_t *, const char *type, const char *action,
                            const char *name, const char *value);
void ncluaw_send_key_event (ncluaw_t *, const char *type, const char *key);
#ifdef __cplusplus
}
#endif
#endif
