AV = r'''
#include <gst/gst.h>
#include <map>
static std::map<GstElement *, GstState> pipes; static std::vector<double> sought;
extern "C" {
GstStateChangeReturn gst_element_set_state (GstElement *e, GstState s) { pipes[e] = s; return GST_STATE_CHANGE_SUCCESS; }
GstStateChangeReturn gst_element_get_state (GstElement *e, GstState *c, GstState *p, GstClockTime) { if (c) *c = pipes[e]; if (p) *p = GST_STATE_VOID_PENDING; return GST_STATE_CHANGE_SUCCESS; }
gboolean gst_element_query_position (GstElement *, GstFormat, gint64 *c) { *c = 2 * (gint64) GST_SECOND; return TRUE; }
gboolean gst_element_query_duration (GstElement *, GstFormat, gint64 *c) { *c = 60 * (gint64) GST_SECOND; return TRUE; }
gboolean gst_element_seek (GstElement *, gdouble, GstFormat, GstSeekFlags, GstSeekType, gint64 to, GstSeekType, gint64) { sought.push_back (to / 1e9); return TRUE; }
}
static GstState only () { GstState s = GST_STATE_NULL; for (auto &x : pipes) if (x.second != GST_STATE_NULL) s = x.second; return s; }
static GstElement *gen () { for (auto &x : pipes) if (x.second != GST_STATE_NULL) return gst_bin_get_by_name (GST_BIN (x.first), "audio.src"); return nullptr; }
'''
SG = '''"<port id='p' component='m'/><port id='q' component='o'/><media id='o'/><media id='m' type='application/x-ginga-siggen'/>"'''
VD = '''"<port id='p' component='m'/><port id='q' component='o'/><media id='o'/><media id='m' src='a.mp4'/>"'''
seed("c30-volume-paused", "C30", "lib/PlayerSigGen.cpp", (
'''      TRACE ("Vol: %f", _prop.volume);
      if (_state != SLEEPING)
''', '''      TRACE ("Vol: %f", _prop.volume);
      if (_state == OCCURRING)
'''), "the volume of a generated sound set while it is paused", "the sound resumes with the old volume", AV + r'''
void demo () {
  Play p (ncl (''' + SG + r''')); p.tick (0); p.act ("m", Event::PAUSE); p.o ("m")->setProperty ("volume", "25%"); p.act ("m", Event::RESUME);
  gdouble v = -1; if (gen ()) g_object_get (gen (), "volume", &v, nullptr); CHECK ("volume", v == .25);
}
''')
seed("c30-wave-names", "C30", "lib/PlayerSigGen.cpp", (
'''      else if (value == "sine-table")
        _prop.wave = 7;
      else if (value == "ticks")
        _prop.wave = 8;
''', '''      else if (value == "sine-table")
        _prop.wave = 7;
      else if (value == "ticks")
        _prop.wave = 7;
'''), "the waveform 'ticks'", "another waveform is generated", AV + r'''
void demo () {
  Play p (ncl (''' + SG + r''')); p.tick (0); p.o ("m")->setProperty ("wave", "ticks");
  gint w = -1; if (gen ()) g_object_get (gen (), "wave", &w, nullptr); CHECK ("wave", w == 8);
}
''')
seed("c30-mute-late", "C30", "lib/PlayerVideo.cpp", (
'''        _prop.freeze = ginga::parse_bool (value);
        break;
      }
    case PROP_MUTE:
      {
''', '''        _prop.freeze = ginga::parse_bool (value);
        break;
      }
    case PROP_MUTE:
      {
        if (_state == PAUSED)
          break;
'''), "mute set while the video is paused", "the video resumes with sound", AV + r'''
void demo () {
  Play p (ncl (''' + VD + r''')); p.tick (0); p.act ("m", Event::PAUSE); p.o ("m")->setProperty ("mute", "true"); p.act ("m", Event::RESUME);
  gboolean m = FALSE; for (auto &x : pipes) if (x.second != GST_STATE_NULL) g_object_get (x.first, "mute", &m, nullptr); CHECK ("muted", m);
}
''')
