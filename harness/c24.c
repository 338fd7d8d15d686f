/* C24: GIO wrappers report exactly what the underlying operation returned
 *
 * Every function of GIO which the wrappers start or finish is a stand-in: it records the
 * arguments it is given, and completes when and as the scenario says. */
#include "common.h"
#include <gio/gunixfdlist.h>
#include "dex-gio.h"
const char *mc_property = "C24";

/* ---- the operation underneath ------------------------------------------------------ */
static struct { const char *name; int begun, finished; gpointer src; GCancellable *c; GAsyncReadyCallback cb; gpointer user; GAsyncResult *result; } K;
/* what it will return */
static int fails, shape, gone, made; static gssize ret_n; static GList *ret_list; static gpointer ret_obj; static GUnixFDList *ret_fds;
static GError *fail_error;
/* what it must be given */
static struct { gsize count; int prio; gpointer buf; const char *str, *s2, *s3, *s4; guint flags; gboolean flag; int timeout; gpointer o2; guint32 *serial; GVariant *params; const GVariantType *rtype; } A;
/* objects to be returned: their classes do nothing on close */
typedef GFileEnumerator MyEnum; typedef GFileEnumeratorClass MyEnumClass;
GType my_enum_get_type (void);
G_DEFINE_TYPE (MyEnum, my_enum, G_TYPE_FILE_ENUMERATOR)
static gboolean enum_close (GFileEnumerator *e, GCancellable *c, GError **x) { return TRUE; }
static void my_enum_class_init (MyEnumClass *k) { k->close_fn = enum_close; }
static void my_enum_init (MyEnum *e) { }
typedef GSocketConnection MyConn; typedef GSocketConnectionClass MyConnClass;
GType my_conn_get_type (void);
G_DEFINE_TYPE (MyConn, my_conn, G_TYPE_SOCKET_CONNECTION)
static gboolean conn_close (GIOStream *e, GCancellable *c, GError **x) { return TRUE; }
static void conn_constructed (GObject *o) { }
static void conn_dispose (GObject *o) { ((GObjectClass *)g_type_class_peek (G_TYPE_OBJECT))->dispose (o); }
static void conn_finalize (GObject *o) { ((GObjectClass *)g_type_class_peek (G_TYPE_OBJECT))->finalize (o); }
static void my_conn_class_init (MyConnClass *k) { G_IO_STREAM_CLASS (k)->close_fn = conn_close; G_OBJECT_CLASS (k)->constructed = conn_constructed; G_OBJECT_CLASS (k)->dispose = conn_dispose; G_OBJECT_CLASS (k)->finalize = conn_finalize; }
static void my_conn_init (MyConn *e) { }
static void on_gone (gpointer d, GObject *o) { gone++; }
static gpointer obj (GType t) { gpointer o = t == G_TYPE_INET_ADDRESS ? g_inet_address_new_loopback (G_SOCKET_FAMILY_IPV4) : g_object_new (t, NULL); g_object_weak_ref (o, on_gone, NULL); made++; return o; }
static void bytes_gone (gpointer d) { gone++; g_free (d); }
static GBytes *mk_bytes (gsize n) { char *m = g_malloc (n + 1); memset (m, 'x', n + 1); made++; return g_bytes_new_with_free_func (m, n, bytes_gone, m); }
static void begin_ (const char *name, gpointer src, GCancellable *c, GAsyncReadyCallback cb, gpointer user)
{
  mc_check (++K.begun == 1, "begin", "%s: an operation was started twice", name);
  mc_check (!strcmp (name, K.name), "operation", "%s was started, not %s", name, K.name);
  mc_check (src == K.src, "object", "%s was started on another object", name);
  mc_check (cb != NULL, "begin", "%s has no callback", name);
  mc_check (G_IS_CANCELLABLE (c) && !g_cancellable_is_cancelled (c), "cancellable", "%s has no usable cancellable", name);
  K.c = g_object_ref (c); K.cb = cb; K.user = user;
  K.result = (gpointer)dex_async_result_new (NULL, NULL, NULL, NULL); /* any GAsyncResult will do */
}
static int finish_ (const char *name, gpointer src, GAsyncResult *r, GError **e)
{
  mc_check (++K.finished == 1, "finish", "%s: finished twice", name);
  mc_check (!strncmp (name, K.name, strlen (K.name) - 6), "operation", "%s finishes %s", name, K.name);
  mc_check (src == K.src && r == K.result, "finish-arguments", "%s was given another object or result", name);
  mc_check (e != NULL && *e == NULL, "finish-arguments", "%s has no place for its error", name);
  if (fails) *e = g_steal_pointer (&fail_error);
  return fails;
}
#define BEGIN(src) begin_ (__func__ + 7, src, c, cb, user)
#define FIN(src) finish_ (__func__ + 7, src, r, e)
#define SAME(x, y) mc_check ((x) == (y), "argument", "%s: argument " #x " differs", K.name)
#define CB GCancellable *c, GAsyncReadyCallback cb, gpointer user
#define RE GAsyncResult *r, GError **e

/* streams */
void __wrap_g_input_stream_read_bytes_async (GInputStream *s, gsize n, int p, CB) { SAME (n, A.count); SAME (p, A.prio); BEGIN (s); }
GBytes *__wrap_g_input_stream_read_bytes_finish (GInputStream *s, RE) { return FIN (s) ? NULL : (ret_obj = mk_bytes (ret_n)); }
void __wrap_g_input_stream_read_async (GInputStream *s, void *b, gsize n, int p, CB) { SAME (b, A.buf); SAME (n, A.count); SAME (p, A.prio); BEGIN (s); }
gssize __wrap_g_input_stream_read_finish (GInputStream *s, RE) { return FIN (s) ? -1 : ret_n; }
void __wrap_g_input_stream_skip_async (GInputStream *s, gsize n, int p, CB) { SAME (n, A.count); SAME (p, A.prio); BEGIN (s); }
gssize __wrap_g_input_stream_skip_finish (GInputStream *s, RE) { return FIN (s) ? -1 : ret_n; }
void __wrap_g_input_stream_close_async (GInputStream *s, int p, CB) { SAME (p, A.prio); BEGIN (s); }
gboolean __wrap_g_input_stream_close_finish (GInputStream *s, RE) { return !FIN (s); }
void __wrap_g_output_stream_write_bytes_async (GOutputStream *s, GBytes *b, int p, CB) { SAME (b, A.o2); SAME (p, A.prio); BEGIN (s); }
gssize __wrap_g_output_stream_write_bytes_finish (GOutputStream *s, RE) { return FIN (s) ? -1 : ret_n; }
void __wrap_g_output_stream_write_async (GOutputStream *s, const void *b, gsize n, int p, CB) { SAME (b, A.buf); SAME (n, A.count); SAME (p, A.prio); BEGIN (s); }
gssize __wrap_g_output_stream_write_finish (GOutputStream *s, RE) { return FIN (s) ? -1 : ret_n; }
void __wrap_g_output_stream_close_async (GOutputStream *s, int p, CB) { SAME (p, A.prio); BEGIN (s); }
gboolean __wrap_g_output_stream_close_finish (GOutputStream *s, RE) { return !FIN (s); }
void __wrap_g_output_stream_splice_async (GOutputStream *s, GInputStream *i, GOutputStreamSpliceFlags f, int p, CB) { SAME (i, A.o2); SAME (f, A.flags); SAME (p, A.prio); BEGIN (s); }
gssize __wrap_g_output_stream_splice_finish (GOutputStream *s, RE) { return FIN (s) ? -1 : ret_n; }
void __wrap_g_io_stream_close_async (GIOStream *s, int p, CB) { SAME (p, A.prio); BEGIN (s); }
gboolean __wrap_g_io_stream_close_finish (GIOStream *s, RE) { return !FIN (s); }
/* files */
void __wrap_g_file_read_async (GFile *f, int p, CB) { SAME (p, A.prio); BEGIN (f); }
GFileInputStream *__wrap_g_file_read_finish (GFile *f, RE) { return FIN (f) ? NULL : (ret_obj = obj (G_TYPE_FILE_INPUT_STREAM)); }
void __wrap_g_file_replace_async (GFile *f, const char *etag, gboolean backup, GFileCreateFlags fl, int p, CB) { SAME (etag, A.str); SAME (backup, A.flag); SAME (fl, A.flags); SAME (p, A.prio); BEGIN (f); }
GFileOutputStream *__wrap_g_file_replace_finish (GFile *f, RE) { return FIN (f) ? NULL : (ret_obj = obj (G_TYPE_MEMORY_OUTPUT_STREAM)); }
static const char *query_attr; static guint query_flags; static int query_prio;
void __wrap_g_file_query_info_async (GFile *f, const char *a, GFileQueryInfoFlags fl, int p, CB)
{
  if (!A.str) { mc_check (a && *a && fl == G_FILE_QUERY_INFO_NONE, "argument", "asks for nothing, or does not follow symbolic links"); } /* dex_file_query_exists() */
  else { SAME (a, A.str); SAME (fl, A.flags); SAME (p, A.prio); }
  BEGIN (f);
}
GFileInfo *__wrap_g_file_query_info_finish (GFile *f, RE) { return FIN (f) ? NULL : (ret_obj = obj (G_TYPE_FILE_INFO)); }
void __wrap_g_file_make_directory_async (GFile *f, int p, CB) { SAME (p, A.prio); BEGIN (f); }
gboolean __wrap_g_file_make_directory_finish (GFile *f, RE) { return !FIN (f); }
void __wrap_g_file_enumerate_children_async (GFile *f, const char *a, GFileQueryInfoFlags fl, int p, CB) { SAME (a, A.str); SAME (fl, A.flags); SAME (p, A.prio); BEGIN (f); }
GFileEnumerator *__wrap_g_file_enumerate_children_finish (GFile *f, RE) { return FIN (f) ? NULL : (ret_obj = obj (my_enum_get_type ())); }
void __wrap_g_file_enumerator_next_files_async (GFileEnumerator *f, int n, int p, CB) { SAME (n, (int)A.count); SAME (p, A.prio); BEGIN (f); }
static GList *mk_list (GType t) { GList *l = NULL; g_list_free (ret_list); ret_list = NULL; for (int i = 0; i < shape; i++) { l = g_list_append (l, obj (t)); } ret_list = g_list_copy (l); return l; }
GList *__wrap_g_file_enumerator_next_files_finish (GFileEnumerator *f, RE) { return FIN (f) ? NULL : mk_list (G_TYPE_FILE_INFO); }
void __wrap_g_file_copy_async (GFile *f, GFile *d, GFileCopyFlags fl, int p, GCancellable *c, GFileProgressCallback pc, gpointer pd, GAsyncReadyCallback cb, gpointer user) { SAME (d, A.o2); SAME (fl, A.flags); SAME (p, A.prio); BEGIN (f); }
gboolean __wrap_g_file_copy_finish (GFile *f, RE) { return !FIN (f); }
void __wrap_g_file_load_contents_async (GFile *f, CB) { BEGIN (f); }
static char *contents, *etag_;
gboolean __wrap_g_file_load_contents_finish (GFile *f, GAsyncResult *r, char **out, gsize *len, char **etag, GError **e)
{
  if (FIN (f)) return FALSE;
  contents = g_malloc (ret_n + 1); memset (contents, 'y', ret_n); contents[ret_n] = 0;
  if (out) *out = contents;
  if (len) *len = ret_n;
  if (etag) *etag = etag_ = g_strdup ("etag");
  return TRUE;
}
/* network */
void __wrap_g_socket_listener_accept_async (GSocketListener *l, CB) { BEGIN (l); }
GSocketConnection *__wrap_g_socket_listener_accept_finish (GSocketListener *l, GAsyncResult *r, GObject **so, GError **e) { return FIN (l) ? NULL : (ret_obj = obj (my_conn_get_type ())); }
void __wrap_g_socket_client_connect_async (GSocketClient *l, GSocketConnectable *a, CB) { SAME ((gpointer)a, A.o2); BEGIN (l); }
GSocketConnection *__wrap_g_socket_client_connect_finish (GSocketClient *l, RE) { return FIN (l) ? NULL : (ret_obj = obj (my_conn_get_type ())); }
void __wrap_g_resolver_lookup_by_name_async (GResolver *l, const char *h, CB) { SAME (h, A.str); BEGIN (l); }
GList *__wrap_g_resolver_lookup_by_name_finish (GResolver *l, RE) { return FIN (l) ? NULL : mk_list (G_TYPE_INET_ADDRESS); }
/* D-Bus */
void __wrap_g_dbus_connection_send_message_with_reply (GDBusConnection *l, GDBusMessage *m, GDBusSendMessageFlags f, int t, guint32 *serial, CB)
{ SAME ((gpointer)m, A.o2); SAME (f, A.flags); SAME (t, A.timeout); SAME ((gpointer)serial, (gpointer)A.serial); if (serial) *serial = 77; BEGIN (l); }
GDBusMessage *__wrap_g_dbus_connection_send_message_with_reply_finish (GDBusConnection *l, RE) { return FIN (l) ? NULL : (ret_obj = obj (G_TYPE_DBUS_MESSAGE)); }
static GVariant *mk_variant (void)
{
  GBytes *b = mk_bytes (16);
  GVariant *v = g_variant_ref_sink (g_variant_new_from_bytes (G_VARIANT_TYPE ("ay"), b, TRUE));
  g_bytes_unref (b);
  return ret_obj = v;
}
void __wrap_g_dbus_connection_call (GDBusConnection *l, const char *a, const char *b, const char *i, const char *m, GVariant *p, const GVariantType *t, GDBusCallFlags f, int ms, CB)
{ SAME (a, A.str); SAME (b, A.s2); SAME (i, A.s3); SAME (m, A.s4); SAME (p, A.params); SAME (t, A.rtype); SAME (f, A.flags); SAME (ms, A.timeout); BEGIN (l); }
GVariant *__wrap_g_dbus_connection_call_finish (GDBusConnection *l, RE) { return FIN (l) ? NULL : mk_variant (); }
void __wrap_g_dbus_connection_call_with_unix_fd_list (GDBusConnection *l, const char *a, const char *b, const char *i, const char *m, GVariant *p, const GVariantType *t, GDBusCallFlags f, int ms, GUnixFDList *fds, CB)
{ SAME (a, A.str); SAME (b, A.s2); SAME (i, A.s3); SAME (m, A.s4); SAME (p, A.params); SAME (t, A.rtype); SAME (f, A.flags); SAME (ms, A.timeout); SAME ((gpointer)fds, A.o2); BEGIN (l); }
GVariant *__wrap_g_dbus_connection_call_with_unix_fd_list_finish (GDBusConnection *l, GUnixFDList **out, RE)
{
  if (FIN (l)) return NULL;
  ret_fds = shape ? obj (G_TYPE_UNIX_FD_LIST) : NULL;
  if (out) *out = ret_fds; else if (ret_fds) g_object_unref (ret_fds);
  return mk_variant ();
}
void __wrap_g_bus_get (GBusType t, CB) { SAME ((guint)t, A.flags); BEGIN (NULL); }
GDBusConnection *__wrap_g_bus_get_finish (RE) { return FIN (NULL) ? NULL : (ret_obj = obj (G_TYPE_DBUS_CONNECTION)); }
void __wrap_g_subprocess_wait_check_async (GSubprocess *s, CB) { BEGIN (s); }
gboolean __wrap_g_subprocess_wait_check_finish (GSubprocess *s, RE) { return !FIN (s); }

/* ---- the wrappers -------------------------------------------------------------------------- */
enum { R_TRUE, R_INT, R_BYTES, R_OBJ, R_INFOS, R_ADDRS, R_CONTENTS, R_VARIANT, R_VARIANT_FDS };
static gpointer o_in, o_out, o_io, o_file, o_file2, o_enum, o_listener, o_client, o_addr, o_resolver, o_bus, o_msg, o_proc, o_fds; static GBytes *o_bytes;
static char buf[64];
static GVariant *params;
static void objects (void)
{
  o_in = g_memory_input_stream_new (); o_out = g_memory_output_stream_new_resizable (); o_io = g_simple_io_stream_new (o_in, o_out);
  o_file = g_file_new_for_path ("/nowhere/a"); o_file2 = g_file_new_for_path ("/nowhere/b");
  o_enum = g_object_new (my_enum_get_type (), NULL); o_listener = g_socket_listener_new (); o_client = g_socket_client_new ();
  o_addr = g_network_address_new ("localhost", 80); o_resolver = g_resolver_get_default (); o_bus = g_object_new (G_TYPE_DBUS_CONNECTION, NULL);
  o_msg = g_dbus_message_new (); o_proc = g_object_new (G_TYPE_SUBPROCESS, NULL); o_fds = g_unix_fd_list_new (); o_bytes = g_bytes_new_static ("abc", 3);
  params = g_variant_ref_sink (g_variant_new ("(i)", 5));
  g_type_ensure (G_TYPE_FILE_INPUT_STREAM); g_type_ensure (G_TYPE_MEMORY_OUTPUT_STREAM); g_type_ensure (my_conn_get_type ()); g_type_ensure (G_TYPE_FILE_INFO); g_type_ensure (G_TYPE_UNIX_FD_LIST);
  g_type_ensure (DEX_TYPE_FILE_INFO_LIST); g_type_ensure (DEX_TYPE_INET_ADDRESS_LIST);
}
static __attribute__ ((constructor)) void ctor (void) { objects (); }
static guint32 serial;
static DexFuture *w_read_bytes (void) { return dex_input_stream_read_bytes (K.src, A.count, A.prio); }
static DexFuture *w_read (void) { return dex_input_stream_read (K.src, A.buf, A.count, A.prio); }
static DexFuture *w_skip (void) { return dex_input_stream_skip (K.src, A.count, A.prio); }
static DexFuture *w_iclose (void) { return dex_input_stream_close (K.src, A.prio); }
static DexFuture *w_write_bytes (void) { A.o2 = o_bytes; return dex_output_stream_write_bytes (K.src, A.o2, A.prio); }
static DexFuture *w_write (void) { return dex_output_stream_write (K.src, A.buf, A.count, A.prio); }
static DexFuture *w_oclose (void) { return dex_output_stream_close (K.src, A.prio); }
static DexFuture *w_splice (void) { A.o2 = o_in; return dex_output_stream_splice (K.src, A.o2, A.flags, A.prio); }
static DexFuture *w_ioclose (void) { return dex_io_stream_close (K.src, A.prio); }
static DexFuture *w_fread (void) { return dex_file_read (K.src, A.prio); }
static DexFuture *w_replace (void) { return dex_file_replace (K.src, A.str, A.flag, A.flags, A.prio); }
static DexFuture *w_query (void) { if (!A.str) A.str = "standard::*"; return dex_file_query_info (K.src, A.str, A.flags, A.prio); }
static DexFuture *w_exists (void) { A.str = NULL; return dex_file_query_exists (K.src); }
static DexFuture *w_mkdir (void) { return dex_file_make_directory (K.src, A.prio); }
static DexFuture *w_children (void) { return dex_file_enumerate_children (K.src, A.str, A.flags, A.prio); }
static DexFuture *w_next (void) { A.count &= 0xffff; return dex_file_enumerator_next_files (K.src, A.count, A.prio); }
static DexFuture *w_copy (void) { A.o2 = o_file2; return dex_file_copy (K.src, A.o2, A.flags, A.prio); }
static DexFuture *w_load (void) { return dex_file_load_contents_bytes (K.src); }
static DexFuture *w_accept (void) { return dex_socket_listener_accept (K.src); }
static DexFuture *w_connect (void) { A.o2 = o_addr; return dex_socket_client_connect (K.src, A.o2); }
static DexFuture *w_lookup (void) { if (!A.str) A.str = "example.org"; return dex_resolver_lookup_by_name (K.src, A.str); }
static DexFuture *w_send (void) { A.o2 = o_msg; A.serial = A.flag ? &serial : NULL; return dex_dbus_connection_send_message_with_reply (K.src, A.o2, A.flags, A.timeout, A.serial); }
static DexFuture *w_call (void) { return dex_dbus_connection_call (K.src, A.str, A.s2, A.s3, A.s4, A.params, A.rtype, A.flags, A.timeout); }
static DexFuture *w_call_fds (void) { A.o2 = A.flag ? o_fds : NULL; return dex_dbus_connection_call_with_unix_fd_list (K.src, A.str, A.s2, A.s3, A.s4, A.params, A.rtype, A.flags, A.timeout, A.o2); }
static DexFuture *w_bus (void) { A.flags = A.flag ? G_BUS_TYPE_SYSTEM : G_BUS_TYPE_SESSION; return dex_bus_get (A.flags); }
static DexFuture *w_wait (void) { return dex_subprocess_wait_check (K.src); }
static const struct { const char *name; gpointer *src; int result; DexFuture *(*start) (void); } W[] = {
  { "g_input_stream_read_bytes_async", &o_in, R_BYTES, w_read_bytes }, { "g_input_stream_read_async", &o_in, R_INT, w_read }, { "g_input_stream_skip_async", &o_in, R_INT, w_skip },
  { "g_input_stream_close_async", &o_in, R_TRUE, w_iclose }, { "g_output_stream_write_bytes_async", &o_out, R_INT, w_write_bytes }, { "g_output_stream_write_async", &o_out, R_INT, w_write },
  { "g_output_stream_close_async", &o_out, R_TRUE, w_oclose }, { "g_output_stream_splice_async", &o_out, R_INT, w_splice }, { "g_io_stream_close_async", &o_io, R_TRUE, w_ioclose },
  { "g_file_read_async", &o_file, R_OBJ, w_fread }, { "g_file_replace_async", &o_file, R_OBJ, w_replace }, { "g_file_query_info_async", &o_file, R_OBJ, w_query },
  { "g_file_query_info_async", &o_file, R_TRUE, w_exists }, { "g_file_make_directory_async", &o_file, R_TRUE, w_mkdir }, { "g_file_enumerate_children_async", &o_file, R_OBJ, w_children },
  { "g_file_enumerator_next_files_async", &o_enum, R_INFOS, w_next }, { "g_file_copy_async", &o_file, R_TRUE, w_copy }, { "g_file_load_contents_async", &o_file, R_CONTENTS, w_load },
  { "g_socket_listener_accept_async", &o_listener, R_OBJ, w_accept }, { "g_socket_client_connect_async", &o_client, R_OBJ, w_connect }, { "g_resolver_lookup_by_name_async", &o_resolver, R_ADDRS, w_lookup },
  { "g_dbus_connection_send_message_with_reply", &o_bus, R_OBJ, w_send }, { "g_dbus_connection_call", &o_bus, R_VARIANT, w_call }, { "g_dbus_connection_call_with_unix_fd_list", &o_bus, R_VARIANT_FDS, w_call_fds },
  { "g_bus_get", NULL, R_OBJ, w_bus }, { "g_subprocess_wait_check_async", &o_proc, R_TRUE, w_wait } };
#define NW ((int)G_N_ELEMENTS (W))

static const gssize sizes[] = { 0, 1, 5, 4096, G_MAXSSIZE };
static const gsize counts[] = { 5, 0, 1, 4096, G_MAXSSIZE };
static const int prios[] = { G_PRIORITY_DEFAULT, -100, 300 };
static GError *mk_fail (int i) { return i == 1 ? g_error_new_literal (G_IO_ERROR, G_IO_ERROR_NOT_FOUND, "no such thing") : i == 2 ? g_error_new_literal (G_IO_ERROR, G_IO_ERROR_CANCELLED, "was cancelled") : mk_err (42); }
static int which, nth;
static DexFuture *start (int w)
{
  static int args; int variant;
  which = w; nth++;
  memset (&K, 0, sizeof K); memset (&A, 0, sizeof A); gone = made = 0; ret_obj = NULL; ret_fds = NULL; fails = 0; shape = 0; contents = etag_ = NULL; serial = 0;
  K.name = W[w].name; K.src = W[w].src ? *W[w].src : NULL;
  variant = mc_choose (3, "arguments"); args = variant;
  A.count = counts[variant]; A.prio = prios[variant]; A.buf = buf + variant; A.str = args == 1 ? NULL : "some"; A.s2 = "/path"; A.s3 = "the.Interface"; A.s4 = "Method";
  A.flags = variant; A.flag = variant & 1; A.timeout = variant == 2 ? -1 : 1000 * variant; A.params = variant == 1 ? NULL : params; A.rtype = variant == 1 ? NULL : G_VARIANT_TYPE ("(s)");
  DexFuture *f = W[w].start ();
  mc_check (f != NULL && DEX_IS_FUTURE (f), "future", "%s: no future", K.name);
  mc_check (K.begun == 1, "begin", "%s was not started", K.name);
  mc_check (dex_future_is_pending (f), "early", "%s: settled before the operation completed", K.name);
  if (!strcmp (K.name, "g_dbus_connection_send_message_with_reply") && A.flag) mc_check (serial == 77, "serial", "the serial is not reported");
  return f;
}
static void choose_outcome (void)
{
  int n = 1;
  switch (W[which].result) { case R_INT: n = 5; break; case R_BYTES: case R_CONTENTS: n = 4; break; case R_INFOS: case R_ADDRS: n = 4; break; case R_VARIANT_FDS: n = 2; }
  int o = mc_choose (n + 3, "outcome");
  fails = o >= n ? o - n + 1 : 0; shape = o; ret_n = o < 5 ? sizes[o] : 0;
  if (fails) fail_error = mk_fail (fails);
}
static void complete_op (void)
{
  GAsyncReadyCallback cb = K.cb; K.cb = NULL;
  GObject *r = g_object_ref ((GObject *)K.result);
  cb (K.src, G_ASYNC_RESULT (r), K.user);
  mc_check (K.finished == 1, "finish", "%s: the result was not collected", K.name);
  g_object_unref (r);
}
static void check_list (const GValue *v, GType t)
{
  mc_check (G_VALUE_HOLDS (v, t), "type", "%s: list has type %s", K.name, G_VALUE_TYPE_NAME (v));
  GList *l = g_value_get_boxed (v), *x = ret_list;
  for (int i = 0; i < shape; i++, l = l->next, x = x->next) mc_check (l != NULL && l->data == x->data, "value", "%s: element %d of the list differs", K.name, i);
  mc_check (l == NULL, "value", "%s: the list is longer", K.name);
}
static void check_future (DexFuture *f, int result)
{
  GError *e = NULL; const GValue *v;
  mc_check (!dex_future_is_pending (f), "lost", "%s completed, its future is pending", K.name);
  v = dex_future_get_value (f, &e);
  if (fails)
    {
      GError *x = mk_fail (fails);
      mc_check (v == NULL && e != NULL, "error", "%s failed, its future did not", K.name);
      mc_check (e->domain == x->domain && e->code == x->code && !strcmp (e->message, x->message), "error", "%s failed with '%s', its future with '%s'", K.name, x->message, e->message);
      g_error_free (e); g_error_free (x);
      return;
    }
  mc_check (v != NULL && e == NULL, "value", "%s succeeded, its future failed with %s", K.name, e ? e->message : "?");
  switch (result)
    {
    case R_TRUE: mc_check (G_VALUE_HOLDS_BOOLEAN (v) && g_value_get_boolean (v) == TRUE, "value", "%s: not TRUE", K.name); break;
    case R_INT: mc_check (G_VALUE_HOLDS_INT64 (v) && g_value_get_int64 (v) == ret_n, "value", "%s: %ld expected", K.name, (long)ret_n); break;
    case R_BYTES: mc_check (G_VALUE_HOLDS (v, G_TYPE_BYTES) && g_value_get_boxed (v) == ret_obj, "value", "%s: other bytes", K.name); break;
    case R_CONTENTS:
      {
        gsize n; mc_check (G_VALUE_HOLDS (v, G_TYPE_BYTES), "type", "%s: no bytes", K.name);
        const char *d = g_bytes_get_data (g_value_get_boxed (v), &n);
        mc_check ((gssize)n == ret_n, "value", "%s: %ld bytes instead of %ld", K.name, (long)n, (long)ret_n);
        for (gsize i = 0; i < n; i++) mc_check (d[i] == 'y', "value", "%s: byte %d differs", K.name, (int)i);
      }
      break;
    case R_OBJ: mc_check (G_VALUE_HOLDS_OBJECT (v) && g_value_get_object (v) == ret_obj, "value", "%s: another object", K.name); break;
    case R_INFOS: check_list (v, DEX_TYPE_FILE_INFO_LIST); break;
    case R_ADDRS: check_list (v, DEX_TYPE_INET_ADDRESS_LIST); break;
    case R_VARIANT: case R_VARIANT_FDS: mc_check (G_VALUE_HOLDS_VARIANT (v) && g_value_get_variant (v) == ret_obj, "value", "%s: not the reply (%s)", K.name, G_VALUE_TYPE_NAME (v)); break;
    }
}
static void check_fds (DexFuture *set)
{
  DexFuture *f = dex_future_set_get_future_at (DEX_FUTURE_SET (set), 1);
  GError *e = NULL; const GValue *v = dex_future_get_value (f, &e);
  mc_check (dex_future_set_get_size (DEX_FUTURE_SET (set)) == 2, "fds", "the set has another size");
  if (fails) { mc_check (v == NULL, "fds", "the call failed but has a list of descriptors"); g_clear_error (&e); }
  else mc_check (v != NULL && G_VALUE_HOLDS_OBJECT (v) && g_value_get_object (v) == (gpointer)ret_fds, "fds", "other list of descriptors");
  check_future (dex_future_set_get_future_at (DEX_FUTURE_SET (set), 0), R_VARIANT);
}
static void check_all (DexFuture *f) { check_future (f, W[which].result); if (W[which].result == R_VARIANT_FDS) check_fds (f); }
static void end_op (void)
{
  mc_check (gone == made, "ownership", "%s: %d of %d results were released", K.name, gone, made);
  mc_check (mc_live_of ("DexAsyncPair") == 0 && mc_live_of ("DexPromise") == 0 && mc_live_of ("DexFutureSet") == 0, "leak", "%s: futures are left", K.name);
  mc_check (((GObject *)K.c)->ref_count == 1, "cancellable-leak", "%s: the cancellable is left", K.name);
  mc_check (!contents || !mc_ptr_valid (contents), "ownership", "%s: the contents are not released", K.name);
  mc_check (!etag_ || !mc_ptr_valid (etag_), "ownership", "%s: the etag is not released", K.name);
  g_clear_object (&K.c); g_object_unref (K.result); g_list_free (ret_list); ret_list = NULL;
  check_values_released ();
}
/* ---- scenarios ------------------------------------------------------------------------------- */
static int pick (void) { return mc_choose (NW, "wrapper"); }
static void sc_result (void)
{
  DexFuture *f = start (pick ());
  choose_outcome ();
  complete_op ();
  check_all (f);
  mc_check (!g_cancellable_is_cancelled (K.c), "cancelled", "%s: cancelled although nobody asked", K.name);
  dex_unref (f);
  end_op ();
}
/* the caller drops its reference and looks no more: nothing leaks, whatever the result */
static void sc_dropped (void)
{
  DexFuture *f = start (pick ());
  choose_outcome ();
  if (mc_choose (2, "disown")) dex_future_disown (f); else dex_unref (f);
  complete_op ();
  end_op ();
}
/* chained: the continuation sees the same result */
static int seen;
static DexFuture *then_cb (DexFuture *f, gpointer d) { seen++; check_all (f); return NULL; }
static void sc_chained (void)
{
  DexFuture *f = start (pick ());
  seen = 0;
  DexFuture *b = dex_future_finally (f, then_cb, NULL, NULL);
  choose_outcome ();
  complete_op ();
  drain_main ();
  mc_check (seen == 1, "chained", "%s: continuation ran %d times", K.name, seen);
  check_future (b, W[which].result);
  dex_unref (b);
  end_op ();
}
/* discarded: the operation is cancelled, and its result released */
static void sc_discarded (void)
{
  DexFuture *f = start (pick ()), *mine = NULL;
  if (mc_choose (2, "keep a reference")) mine = dex_ref (f);
  DexFuture *b = dex_future_then (f, then_cb, NULL, NULL);
  seen = 0;
  int extra = mc_choose (2, "second waiter"); DexFuture *b2 = NULL;
  if (extra && mine) b2 = dex_future_finally (dex_ref (mine), then_cb, NULL, NULL); else if (extra) mc_prune ();
  dex_unref (b);
  if (extra)
    {
      mc_check (!g_cancellable_is_cancelled (K.c), "cancelled", "%s: cancelled although somebody waits", K.name);
      if (mc_choose (2, "drop the second")) { dex_unref (b2); b2 = NULL; }
    }
  /* releasing a set discards its members, so that is needed for the call with descriptors */
  if (!b2 && !(mine && W[which].result == R_VARIANT_FDS)) mc_check (g_cancellable_is_cancelled (K.c), "not-cancelled", "%s: discarded, but the operation is not cancelled", K.name);
  choose_outcome ();
  complete_op ();
  drain_main ();
  if (b2) { mc_check (seen == 1, "chained", "%s: continuation ran %d times", K.name, seen); check_future (b2, W[which].result); dex_unref (b2); }
  else mc_check (seen == 0, "chained", "%s: a dropped continuation ran", K.name);
  if (mine) { mc_check (!dex_future_is_pending (mine), "lost", "%s: pending", K.name); dex_unref (mine); }
  end_op ();
}
/* awaited by a fiber */
static DexFuture *fib_f; static int fib_done;
static DexFuture *fiber (gpointer d)
{
  GError *e = NULL; gboolean ok = dex_await (dex_ref (fib_f), &e);
  mc_check (ok == !fails, "await", "%s: await returned %d", K.name, ok);
  g_clear_error (&e); fib_done = 1;
  check_all (fib_f);
  return NULL;
}
static void sc_fiber (void)
{
  fib_f = start (pick ()); fib_done = 0;
  DexFuture *x = dex_scheduler_spawn (NULL, 0, fiber, NULL, NULL);
  drain_main ();
  choose_outcome ();
  complete_op ();
  drain_main ();
  mc_check (fib_done, "lost", "%s: the fiber was not resumed", K.name);
  dex_unref (x); dex_unref (fib_f);
  drain_main ();
  end_op ();
}

void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "result", sc_result, 0, 0, MCF_SEQ, "every wrapper x arguments x every shape of result and errors" },
  { "dropped", sc_dropped, 0, 0, MCF_SEQ, "the future is dropped before the operation completes" },
  { "chained", sc_chained, 0, 0, MCF_SEQ, "a continuation gets the result" },
  { "discarded", sc_discarded, 0, 0, MCF_SEQ, "the future is discarded while the operation runs" },
  { "fiber", sc_fiber, 0, 0, 0, "a fiber awaits the operation" },
  { NULL }
};
