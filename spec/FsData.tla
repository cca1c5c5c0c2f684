---- MODULE FsData ----
\* Generated by lib/fsdata.py: the file tree of the modelled machine.
EXTENDS Integers, Sequences

\* name asked for (bytes without the terminating NUL) -> canonical path, its class,
\* the error of resolving it and the error of opening it
FsTable == <<
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 48>>, p |-> "/dev/input/event0", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 49>>, p |-> "/dev/input/event1", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 50>>, p |-> "/dev/input/event2", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 51, 49>>, p |-> "/dev/input/event31", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 95, 102, 97, 105, 108>>, p |-> "/dev/input/event_fail", k |-> "evdev", e |-> 0, oe |-> 13],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 95, 103, 111, 110, 101>>, p |-> "/dev/input/event_gone", k |-> "evdev", e |-> 0, oe |-> 19],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 109, 105, 99, 101>>, p |-> "/dev/input/mice", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 106, 115, 48>>, p |-> "/dev/input/js0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 109, 111, 117, 115, 101, 48>>, p |-> "/dev/input/mouse0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 49>>, p |-> "/dev/dri/card1", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 114, 101, 110, 100, 101, 114, 68, 49, 50, 56>>, p |-> "/dev/dri/renderD128", k |-> "drm", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 95, 98, 117, 115, 121>>, p |-> "/dev/dri/card_busy", k |-> "card", e |-> 0, oe |-> 16],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 98, 121, 45, 112, 97, 116, 104, 47, 110, 111, 116, 101>>, p |-> "/dev/dri/by-path/note", k |-> "drm", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 102, 116, 101, 114>>, p |-> "/dev/drifter", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 101, 118, 101, 110, 116, 48>>, p |-> "/dev/inputevent0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 109, 101, 109>>, p |-> "/dev/mem", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 115, 100, 97>>, p |-> "/dev/sda", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 110, 117, 108, 108, 50>>, p |-> "/dev/null2", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 117, 105, 110, 112, 117, 116>>, p |-> "/dev/uinput", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 104, 105, 100, 114, 97, 119, 48>>, p |-> "/dev/hidraw0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 102, 98, 48>>, p |-> "/dev/fb0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 115, 110, 100, 47, 112, 99, 109, 48>>, p |-> "/dev/snd/pcm0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 101, 116, 99, 47, 115, 104, 97, 100, 111, 119>>, p |-> "/etc/shadow", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 101, 116, 99, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 48>>, p |-> "/etc/input/event0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 104, 111, 109, 101, 47, 117, 47, 99, 97, 114, 100, 48>>, p |-> "/home/u/card0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 109, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/drm/card0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 119, 115, 107, 98, 100, 48>>, p |-> "/dev/wskbd0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 120, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48>>, p |-> "/xdev/dri/card0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 68, 82, 73, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/DRI/card0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 50, 47, 101, 118, 101, 110, 116, 48>>, p |-> "/dev/input2/event0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 48>>, p |-> "/dev/input/eventm000", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 49>>, p |-> "/dev/input/eventm001", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 50>>, p |-> "/dev/input/eventm002", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 51>>, p |-> "/dev/input/eventm003", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 52>>, p |-> "/dev/input/eventm004", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 53>>, p |-> "/dev/input/eventm005", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 54>>, p |-> "/dev/input/eventm006", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 55>>, p |-> "/dev/input/eventm007", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 56>>, p |-> "/dev/input/eventm008", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 48, 57>>, p |-> "/dev/input/eventm009", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 48>>, p |-> "/dev/input/eventm010", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 49>>, p |-> "/dev/input/eventm011", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 50>>, p |-> "/dev/input/eventm012", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 51>>, p |-> "/dev/input/eventm013", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 52>>, p |-> "/dev/input/eventm014", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 53>>, p |-> "/dev/input/eventm015", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 54>>, p |-> "/dev/input/eventm016", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 55>>, p |-> "/dev/input/eventm017", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 56>>, p |-> "/dev/input/eventm018", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 49, 57>>, p |-> "/dev/input/eventm019", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 48>>, p |-> "/dev/input/eventm020", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 49>>, p |-> "/dev/input/eventm021", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 50>>, p |-> "/dev/input/eventm022", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 51>>, p |-> "/dev/input/eventm023", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 52>>, p |-> "/dev/input/eventm024", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 53>>, p |-> "/dev/input/eventm025", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 54>>, p |-> "/dev/input/eventm026", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 55>>, p |-> "/dev/input/eventm027", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 56>>, p |-> "/dev/input/eventm028", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 50, 57>>, p |-> "/dev/input/eventm029", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 48>>, p |-> "/dev/input/eventm030", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 49>>, p |-> "/dev/input/eventm031", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 50>>, p |-> "/dev/input/eventm032", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 51>>, p |-> "/dev/input/eventm033", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 52>>, p |-> "/dev/input/eventm034", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 53>>, p |-> "/dev/input/eventm035", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 54>>, p |-> "/dev/input/eventm036", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 55>>, p |-> "/dev/input/eventm037", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 56>>, p |-> "/dev/input/eventm038", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 51, 57>>, p |-> "/dev/input/eventm039", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 48>>, p |-> "/dev/input/eventm040", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 49>>, p |-> "/dev/input/eventm041", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 50>>, p |-> "/dev/input/eventm042", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 51>>, p |-> "/dev/input/eventm043", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 52>>, p |-> "/dev/input/eventm044", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 53>>, p |-> "/dev/input/eventm045", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 54>>, p |-> "/dev/input/eventm046", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 55>>, p |-> "/dev/input/eventm047", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 56>>, p |-> "/dev/input/eventm048", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 52, 57>>, p |-> "/dev/input/eventm049", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 48>>, p |-> "/dev/input/eventm050", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 49>>, p |-> "/dev/input/eventm051", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 50>>, p |-> "/dev/input/eventm052", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 51>>, p |-> "/dev/input/eventm053", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 52>>, p |-> "/dev/input/eventm054", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 53>>, p |-> "/dev/input/eventm055", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 54>>, p |-> "/dev/input/eventm056", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 55>>, p |-> "/dev/input/eventm057", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 56>>, p |-> "/dev/input/eventm058", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 53, 57>>, p |-> "/dev/input/eventm059", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 48>>, p |-> "/dev/input/eventm060", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 49>>, p |-> "/dev/input/eventm061", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 50>>, p |-> "/dev/input/eventm062", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 51>>, p |-> "/dev/input/eventm063", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 52>>, p |-> "/dev/input/eventm064", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 53>>, p |-> "/dev/input/eventm065", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 54>>, p |-> "/dev/input/eventm066", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 55>>, p |-> "/dev/input/eventm067", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 56>>, p |-> "/dev/input/eventm068", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 54, 57>>, p |-> "/dev/input/eventm069", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 48>>, p |-> "/dev/input/eventm070", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 49>>, p |-> "/dev/input/eventm071", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 50>>, p |-> "/dev/input/eventm072", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 51>>, p |-> "/dev/input/eventm073", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 52>>, p |-> "/dev/input/eventm074", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 53>>, p |-> "/dev/input/eventm075", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 54>>, p |-> "/dev/input/eventm076", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 55>>, p |-> "/dev/input/eventm077", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 56>>, p |-> "/dev/input/eventm078", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 55, 57>>, p |-> "/dev/input/eventm079", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 48>>, p |-> "/dev/input/eventm080", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 49>>, p |-> "/dev/input/eventm081", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 50>>, p |-> "/dev/input/eventm082", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 51>>, p |-> "/dev/input/eventm083", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 52>>, p |-> "/dev/input/eventm084", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 53>>, p |-> "/dev/input/eventm085", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 54>>, p |-> "/dev/input/eventm086", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 55>>, p |-> "/dev/input/eventm087", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 56>>, p |-> "/dev/input/eventm088", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 56, 57>>, p |-> "/dev/input/eventm089", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 48>>, p |-> "/dev/input/eventm090", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 49>>, p |-> "/dev/input/eventm091", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 50>>, p |-> "/dev/input/eventm092", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 51>>, p |-> "/dev/input/eventm093", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 52>>, p |-> "/dev/input/eventm094", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 53>>, p |-> "/dev/input/eventm095", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 54>>, p |-> "/dev/input/eventm096", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 55>>, p |-> "/dev/input/eventm097", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 56>>, p |-> "/dev/input/eventm098", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 48, 57, 57>>, p |-> "/dev/input/eventm099", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 48>>, p |-> "/dev/input/eventm100", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 49>>, p |-> "/dev/input/eventm101", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 50>>, p |-> "/dev/input/eventm102", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 51>>, p |-> "/dev/input/eventm103", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 52>>, p |-> "/dev/input/eventm104", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 53>>, p |-> "/dev/input/eventm105", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 54>>, p |-> "/dev/input/eventm106", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 55>>, p |-> "/dev/input/eventm107", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 56>>, p |-> "/dev/input/eventm108", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 48, 57>>, p |-> "/dev/input/eventm109", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 48>>, p |-> "/dev/input/eventm110", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 49>>, p |-> "/dev/input/eventm111", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 50>>, p |-> "/dev/input/eventm112", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 51>>, p |-> "/dev/input/eventm113", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 52>>, p |-> "/dev/input/eventm114", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 53>>, p |-> "/dev/input/eventm115", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 54>>, p |-> "/dev/input/eventm116", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 55>>, p |-> "/dev/input/eventm117", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 56>>, p |-> "/dev/input/eventm118", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 49, 57>>, p |-> "/dev/input/eventm119", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 48>>, p |-> "/dev/input/eventm120", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 49>>, p |-> "/dev/input/eventm121", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 50>>, p |-> "/dev/input/eventm122", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 51>>, p |-> "/dev/input/eventm123", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 52>>, p |-> "/dev/input/eventm124", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 53>>, p |-> "/dev/input/eventm125", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 54>>, p |-> "/dev/input/eventm126", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 55>>, p |-> "/dev/input/eventm127", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 56>>, p |-> "/dev/input/eventm128", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 50, 57>>, p |-> "/dev/input/eventm129", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 48>>, p |-> "/dev/input/eventm130", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 49>>, p |-> "/dev/input/eventm131", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 50>>, p |-> "/dev/input/eventm132", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 51>>, p |-> "/dev/input/eventm133", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 52>>, p |-> "/dev/input/eventm134", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 53>>, p |-> "/dev/input/eventm135", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 54>>, p |-> "/dev/input/eventm136", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 55>>, p |-> "/dev/input/eventm137", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 56>>, p |-> "/dev/input/eventm138", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 109, 49, 51, 57>>, p |-> "/dev/input/eventm139", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 115, 117, 98>>, p |-> "/dev/dri/sub", k |-> "drm", e |-> 0, oe |-> 21],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 100, 105, 114>>, p |-> "/dev/input/eventdir", k |-> "evdev", e |-> 0, oe |-> 21],
  [b |-> <<47, 100, 101, 118, 47, 101, 109, 112, 116, 121>>, p |-> "/dev/empty", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47, 104, 111, 109, 101, 47, 117, 47, 100>>, p |-> "/home/u/d", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105>>, p |-> "/dev/dri", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116>>, p |-> "/dev/input", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47>>, p |-> "/", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47>>, p |-> "/dev/dri", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47, 101, 116, 99>>, p |-> "/etc", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 98, 121, 45, 105, 100, 47, 107, 98, 100>>, p |-> "/dev/input/event0", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 98, 121, 45, 105, 100, 47, 97, 98, 115>>, p |-> "/dev/input/event1", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 98, 121, 45, 105, 100, 47, 99, 104, 97, 105, 110>>, p |-> "/dev/input/event0", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 98, 121, 45, 112, 97, 116, 104, 47, 103, 112, 117>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 101, 118, 105, 108>>, p |-> "/etc/shadow", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 101, 118, 105, 108, 95, 114, 101, 108>>, p |-> "/etc/shadow", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 95, 101, 118, 105, 108>>, p |-> "/dev/mem", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 95, 101, 118, 105, 108, 50>>, p |-> "/dev/sda", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 95, 116, 111, 100, 114, 105>>, p |-> "/dev/dri/card1", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 95, 116, 111, 101, 118>>, p |-> "/dev/input/event2", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 100, 97, 110, 103, 108, 105, 110, 103>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 108, 111, 111, 112, 49>>, p |-> "", k |-> "none", e |-> 40, oe |-> 0],
  [b |-> <<47, 104, 111, 109, 101, 47, 117, 47, 109, 121, 99, 97, 114, 100>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 104, 111, 109, 101, 47, 117, 47, 109, 121, 101, 118>>, p |-> "/dev/input/event0", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 100, 105, 114, 108, 105, 110, 107>>, p |-> "/etc", k |-> "bad", e |-> 0, oe |-> 21],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 100, 105, 114, 108, 105, 110, 107, 47, 115, 104, 97, 100, 111, 119>>, p |-> "/etc/shadow", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 103, 112, 117>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 100, 105, 114, 108, 105, 110, 107, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 48>>, p |-> "/etc/input/event0", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 115, 101, 108, 102, 100, 105, 114, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 46, 46, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 49>>, p |-> "/dev/input/event1", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 46, 46, 47, 46, 46, 47, 101, 116, 99, 47, 115, 104, 97, 100, 111, 119>>, p |-> "/etc/shadow", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 46, 46, 47, 100, 114, 105, 47, 46, 47, 99, 97, 114, 100, 49>>, p |-> "/dev/dri/card1", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 47, 100, 101, 118, 47, 47, 47, 100, 114, 105, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 46, 46, 47, 109, 101, 109>>, p |-> "/dev/mem", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 48, 47, 46, 46, 47, 109, 105, 99, 101>>, p |-> "", k |-> "none", e |-> 20, oe |-> 0],
  [b |-> <<47, 46, 46, 47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48, 47>>, p |-> "", k |-> "none", e |-> 20, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48, 47, 120>>, p |-> "", k |-> "none", e |-> 20, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 55>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116, 55, 55>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 110, 111, 100, 105, 114, 47, 46, 46, 47, 99, 97, 114, 100, 48>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<99, 97, 114, 100, 48>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<46, 46, 47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 101, 118, 101, 110, 116>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 110, 111, 112, 101, 47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<32, 47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 99, 97, 114, 100, 48, 32>>, p |-> "", k |-> "none", e |-> 2, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 105, 110, 112, 117, 116, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 101, 118, 101, 110, 116, 48>>, p |-> "/dev/input/event0", k |-> "evdev", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 100, 114, 105, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 47, 99, 97, 114, 100, 48>>, p |-> "/dev/dri/card0", k |-> "card", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 116, 116, 121, 49>>, p |-> "/dev/tty1", k |-> "bad", e |-> 0, oe |-> 0],
  [b |-> <<47, 100, 101, 118, 47, 116, 116, 121, 48>>, p |-> "/dev/tty0", k |-> "bad", e |-> 0, oe |-> 0]
>>
====
