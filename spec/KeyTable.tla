---------------------------- MODULE KeyTable ----------------------------
(* GENERATED by tools/gen_keytable.py from spec/keys.tsv, do not edit.        *)
(* Key codes, their names, alternate names and shifted (US layout) names.    *)
KeyRows == <<
  [c |-> 1, n |-> "esc", a |-> "escape", s |-> ""],
  [c |-> 2, n |-> "1", a |-> "", s |-> "!"],
  [c |-> 3, n |-> "2", a |-> "", s |-> "@"],
  [c |-> 4, n |-> "3", a |-> "", s |-> "#"],
  [c |-> 5, n |-> "4", a |-> "", s |-> "$"],
  [c |-> 6, n |-> "5", a |-> "", s |-> "%"],
  [c |-> 7, n |-> "6", a |-> "", s |-> "^"],
  [c |-> 8, n |-> "7", a |-> "", s |-> "&"],
  [c |-> 9, n |-> "8", a |-> "", s |-> "*"],
  [c |-> 10, n |-> "9", a |-> "", s |-> "("],
  [c |-> 11, n |-> "0", a |-> "", s |-> ")"],
  [c |-> 12, n |-> "-", a |-> "minus", s |-> "_"],
  [c |-> 13, n |-> "=", a |-> "equal", s |-> "+"],
  [c |-> 14, n |-> "backspace", a |-> "", s |-> ""],
  [c |-> 15, n |-> "tab", a |-> "", s |-> ""],
  [c |-> 16, n |-> "q", a |-> "", s |-> "Q"],
  [c |-> 17, n |-> "w", a |-> "", s |-> "W"],
  [c |-> 18, n |-> "e", a |-> "", s |-> "E"],
  [c |-> 19, n |-> "r", a |-> "", s |-> "R"],
  [c |-> 20, n |-> "t", a |-> "", s |-> "T"],
  [c |-> 21, n |-> "y", a |-> "", s |-> "Y"],
  [c |-> 22, n |-> "u", a |-> "", s |-> "U"],
  [c |-> 23, n |-> "i", a |-> "", s |-> "I"],
  [c |-> 24, n |-> "o", a |-> "", s |-> "O"],
  [c |-> 25, n |-> "p", a |-> "", s |-> "P"],
  [c |-> 26, n |-> "[", a |-> "leftbrace", s |-> "{"],
  [c |-> 27, n |-> "]", a |-> "rightbrace", s |-> "}"],
  [c |-> 28, n |-> "enter", a |-> "", s |-> ""],
  [c |-> 29, n |-> "leftcontrol", a |-> "", s |-> ""],
  [c |-> 30, n |-> "a", a |-> "", s |-> "A"],
  [c |-> 31, n |-> "s", a |-> "", s |-> "S"],
  [c |-> 32, n |-> "d", a |-> "", s |-> "D"],
  [c |-> 33, n |-> "f", a |-> "", s |-> "F"],
  [c |-> 34, n |-> "g", a |-> "", s |-> "G"],
  [c |-> 35, n |-> "h", a |-> "", s |-> "H"],
  [c |-> 36, n |-> "j", a |-> "", s |-> "J"],
  [c |-> 37, n |-> "k", a |-> "", s |-> "K"],
  [c |-> 38, n |-> "l", a |-> "", s |-> "L"],
  [c |-> 39, n |-> ";", a |-> "semicolon", s |-> ":"],
  [c |-> 40, n |-> "'", a |-> "apostrophe", s |-> "\""],
  [c |-> 41, n |-> "`", a |-> "grave", s |-> "~"],
  [c |-> 42, n |-> "leftshift", a |-> "", s |-> ""],
  [c |-> 43, n |-> "\\", a |-> "backslash", s |-> "|"],
  [c |-> 44, n |-> "z", a |-> "", s |-> "Z"],
  [c |-> 45, n |-> "x", a |-> "", s |-> "X"],
  [c |-> 46, n |-> "c", a |-> "", s |-> "C"],
  [c |-> 47, n |-> "v", a |-> "", s |-> "V"],
  [c |-> 48, n |-> "b", a |-> "", s |-> "B"],
  [c |-> 49, n |-> "n", a |-> "", s |-> "N"],
  [c |-> 50, n |-> "m", a |-> "", s |-> "M"],
  [c |-> 51, n |-> ",", a |-> "comma", s |-> "<"],
  [c |-> 52, n |-> ".", a |-> "dot", s |-> ">"],
  [c |-> 53, n |-> "/", a |-> "slash", s |-> "?"],
  [c |-> 54, n |-> "rightshift", a |-> "", s |-> ""],
  [c |-> 55, n |-> "kpasterisk", a |-> "", s |-> ""],
  [c |-> 56, n |-> "leftalt", a |-> "", s |-> ""],
  [c |-> 57, n |-> "space", a |-> "", s |-> ""],
  [c |-> 58, n |-> "capslock", a |-> "", s |-> ""],
  [c |-> 59, n |-> "f1", a |-> "", s |-> ""],
  [c |-> 60, n |-> "f2", a |-> "", s |-> ""],
  [c |-> 61, n |-> "f3", a |-> "", s |-> ""],
  [c |-> 62, n |-> "f4", a |-> "", s |-> ""],
  [c |-> 63, n |-> "f5", a |-> "", s |-> ""],
  [c |-> 64, n |-> "f6", a |-> "", s |-> ""],
  [c |-> 65, n |-> "f7", a |-> "", s |-> ""],
  [c |-> 66, n |-> "f8", a |-> "", s |-> ""],
  [c |-> 67, n |-> "f9", a |-> "", s |-> ""],
  [c |-> 68, n |-> "f10", a |-> "", s |-> ""],
  [c |-> 69, n |-> "numlock", a |-> "", s |-> ""],
  [c |-> 70, n |-> "scrolllock", a |-> "", s |-> ""],
  [c |-> 71, n |-> "kp7", a |-> "", s |-> ""],
  [c |-> 72, n |-> "kp8", a |-> "", s |-> ""],
  [c |-> 73, n |-> "kp9", a |-> "", s |-> ""],
  [c |-> 74, n |-> "kpminus", a |-> "", s |-> ""],
  [c |-> 75, n |-> "kp4", a |-> "", s |-> ""],
  [c |-> 76, n |-> "kp5", a |-> "", s |-> ""],
  [c |-> 77, n |-> "kp6", a |-> "", s |-> ""],
  [c |-> 78, n |-> "kpplus", a |-> "", s |-> ""],
  [c |-> 79, n |-> "kp1", a |-> "", s |-> ""],
  [c |-> 80, n |-> "kp2", a |-> "", s |-> ""],
  [c |-> 81, n |-> "kp3", a |-> "", s |-> ""],
  [c |-> 82, n |-> "kp0", a |-> "", s |-> ""],
  [c |-> 83, n |-> "kpdot", a |-> "", s |-> ""],
  [c |-> 84, n |-> "iso-level3-shift", a |-> "", s |-> ""],
  [c |-> 85, n |-> "zenkakuhankaku", a |-> "", s |-> ""],
  [c |-> 86, n |-> "102nd", a |-> "", s |-> ""],
  [c |-> 87, n |-> "f11", a |-> "", s |-> ""],
  [c |-> 88, n |-> "f12", a |-> "", s |-> ""],
  [c |-> 89, n |-> "ro", a |-> "", s |-> ""],
  [c |-> 90, n |-> "katakana", a |-> "", s |-> ""],
  [c |-> 91, n |-> "hiragana", a |-> "", s |-> ""],
  [c |-> 92, n |-> "henkan", a |-> "", s |-> ""],
  [c |-> 93, n |-> "katakanahiragana", a |-> "", s |-> ""],
  [c |-> 94, n |-> "muhenkan", a |-> "", s |-> ""],
  [c |-> 95, n |-> "kpjpcomma", a |-> "", s |-> ""],
  [c |-> 96, n |-> "kpenter", a |-> "", s |-> ""],
  [c |-> 97, n |-> "rightcontrol", a |-> "", s |-> ""],
  [c |-> 98, n |-> "kpslash", a |-> "", s |-> ""],
  [c |-> 99, n |-> "sysrq", a |-> "", s |-> ""],
  [c |-> 100, n |-> "rightalt", a |-> "", s |-> ""],
  [c |-> 101, n |-> "linefeed", a |-> "", s |-> ""],
  [c |-> 102, n |-> "home", a |-> "", s |-> ""],
  [c |-> 103, n |-> "up", a |-> "", s |-> ""],
  [c |-> 104, n |-> "pageup", a |-> "", s |-> ""],
  [c |-> 105, n |-> "left", a |-> "", s |-> ""],
  [c |-> 106, n |-> "right", a |-> "", s |-> ""],
  [c |-> 107, n |-> "end", a |-> "", s |-> ""],
  [c |-> 108, n |-> "down", a |-> "", s |-> ""],
  [c |-> 109, n |-> "pagedown", a |-> "", s |-> ""],
  [c |-> 110, n |-> "insert", a |-> "", s |-> ""],
  [c |-> 111, n |-> "delete", a |-> "", s |-> ""],
  [c |-> 112, n |-> "macro", a |-> "", s |-> ""],
  [c |-> 113, n |-> "mute", a |-> "", s |-> ""],
  [c |-> 114, n |-> "volumedown", a |-> "", s |-> ""],
  [c |-> 115, n |-> "volumeup", a |-> "", s |-> ""],
  [c |-> 116, n |-> "power", a |-> "", s |-> ""],
  [c |-> 117, n |-> "kpequal", a |-> "", s |-> ""],
  [c |-> 118, n |-> "kpplusminus", a |-> "", s |-> ""],
  [c |-> 119, n |-> "pause", a |-> "", s |-> ""],
  [c |-> 120, n |-> "scale", a |-> "", s |-> ""],
  [c |-> 121, n |-> "kpcomma", a |-> "", s |-> ""],
  [c |-> 122, n |-> "hangeul", a |-> "", s |-> ""],
  [c |-> 123, n |-> "hanja", a |-> "", s |-> ""],
  [c |-> 124, n |-> "yen", a |-> "", s |-> ""],
  [c |-> 125, n |-> "leftmeta", a |-> "", s |-> ""],
  [c |-> 126, n |-> "rightmeta", a |-> "", s |-> ""],
  [c |-> 127, n |-> "compose", a |-> "", s |-> ""],
  [c |-> 128, n |-> "stop", a |-> "", s |-> ""],
  [c |-> 129, n |-> "again", a |-> "", s |-> ""],
  [c |-> 130, n |-> "props", a |-> "", s |-> ""],
  [c |-> 131, n |-> "undo", a |-> "", s |-> ""],
  [c |-> 132, n |-> "front", a |-> "", s |-> ""],
  [c |-> 133, n |-> "copy", a |-> "", s |-> ""],
  [c |-> 134, n |-> "open", a |-> "", s |-> ""],
  [c |-> 135, n |-> "paste", a |-> "", s |-> ""],
  [c |-> 136, n |-> "find", a |-> "", s |-> ""],
  [c |-> 137, n |-> "cut", a |-> "", s |-> ""],
  [c |-> 138, n |-> "help", a |-> "", s |-> ""],
  [c |-> 139, n |-> "menu", a |-> "", s |-> ""],
  [c |-> 140, n |-> "calc", a |-> "", s |-> ""],
  [c |-> 141, n |-> "setup", a |-> "", s |-> ""],
  [c |-> 142, n |-> "sleep", a |-> "", s |-> ""],
  [c |-> 143, n |-> "wakeup", a |-> "", s |-> ""],
  [c |-> 144, n |-> "file", a |-> "", s |-> ""],
  [c |-> 145, n |-> "sendfile", a |-> "", s |-> ""],
  [c |-> 146, n |-> "deletefile", a |-> "", s |-> ""],
  [c |-> 147, n |-> "xfer", a |-> "", s |-> ""],
  [c |-> 148, n |-> "scrolldown", a |-> "", s |-> ""],
  [c |-> 149, n |-> "scrollup", a |-> "", s |-> ""],
  [c |-> 150, n |-> "www", a |-> "", s |-> ""],
  [c |-> 151, n |-> "msdos", a |-> "", s |-> ""],
  [c |-> 152, n |-> "coffee", a |-> "", s |-> ""],
  [c |-> 153, n |-> "display", a |-> "", s |-> ""],
  [c |-> 154, n |-> "cyclewindows", a |-> "", s |-> ""],
  [c |-> 155, n |-> "mail", a |-> "", s |-> ""],
  [c |-> 156, n |-> "bookmarks", a |-> "", s |-> ""],
  [c |-> 157, n |-> "computer", a |-> "", s |-> ""],
  [c |-> 158, n |-> "back", a |-> "", s |-> ""],
  [c |-> 159, n |-> "forward", a |-> "", s |-> ""],
  [c |-> 160, n |-> "closecd", a |-> "", s |-> ""],
  [c |-> 161, n |-> "ejectcd", a |-> "", s |-> ""],
  [c |-> 162, n |-> "ejectclosecd", a |-> "", s |-> ""],
  [c |-> 163, n |-> "nextsong", a |-> "", s |-> ""],
  [c |-> 164, n |-> "playpause", a |-> "", s |-> ""],
  [c |-> 165, n |-> "previoussong", a |-> "", s |-> ""],
  [c |-> 166, n |-> "stopcd", a |-> "", s |-> ""],
  [c |-> 167, n |-> "record", a |-> "", s |-> ""],
  [c |-> 168, n |-> "rewind", a |-> "", s |-> ""],
  [c |-> 169, n |-> "phone", a |-> "", s |-> ""],
  [c |-> 170, n |-> "iso", a |-> "", s |-> ""],
  [c |-> 171, n |-> "config", a |-> "", s |-> ""],
  [c |-> 172, n |-> "homepage", a |-> "", s |-> ""],
  [c |-> 173, n |-> "refresh", a |-> "", s |-> ""],
  [c |-> 174, n |-> "exit", a |-> "", s |-> ""],
  [c |-> 175, n |-> "move", a |-> "", s |-> ""],
  [c |-> 176, n |-> "edit", a |-> "", s |-> ""],
  [c |-> 177, n |-> "zoom", a |-> "", s |-> ""],
  [c |-> 178, n |-> "mouseback", a |-> "", s |-> ""],
  [c |-> 179, n |-> "kpleftparen", a |-> "", s |-> ""],
  [c |-> 180, n |-> "kprightparen", a |-> "", s |-> ""],
  [c |-> 181, n |-> "new", a |-> "", s |-> ""],
  [c |-> 182, n |-> "redo", a |-> "", s |-> ""],
  [c |-> 183, n |-> "f13", a |-> "", s |-> ""],
  [c |-> 184, n |-> "f14", a |-> "", s |-> ""],
  [c |-> 185, n |-> "f15", a |-> "", s |-> ""],
  [c |-> 186, n |-> "f16", a |-> "", s |-> ""],
  [c |-> 187, n |-> "f17", a |-> "", s |-> ""],
  [c |-> 188, n |-> "f18", a |-> "", s |-> ""],
  [c |-> 189, n |-> "f19", a |-> "", s |-> ""],
  [c |-> 190, n |-> "f20", a |-> "", s |-> ""],
  [c |-> 191, n |-> "f21", a |-> "prog1", s |-> ""],
  [c |-> 192, n |-> "f22", a |-> "prog2", s |-> ""],
  [c |-> 193, n |-> "f23", a |-> "prog3", s |-> ""],
  [c |-> 194, n |-> "f24", a |-> "prog4", s |-> ""],
  [c |-> 195, n |-> "noop", a |-> "", s |-> ""],
  [c |-> 200, n |-> "playcd", a |-> "", s |-> ""],
  [c |-> 201, n |-> "pausecd", a |-> "", s |-> ""],
  [c |-> 202, n |-> "scrollleft", a |-> "", s |-> ""],
  [c |-> 203, n |-> "scrollright", a |-> "", s |-> ""],
  [c |-> 204, n |-> "dashboard", a |-> "", s |-> ""],
  [c |-> 205, n |-> "suspend", a |-> "", s |-> ""],
  [c |-> 206, n |-> "close", a |-> "", s |-> ""],
  [c |-> 207, n |-> "play", a |-> "", s |-> ""],
  [c |-> 208, n |-> "fastforward", a |-> "", s |-> ""],
  [c |-> 209, n |-> "bassboost", a |-> "", s |-> ""],
  [c |-> 210, n |-> "print", a |-> "", s |-> ""],
  [c |-> 211, n |-> "hp", a |-> "", s |-> ""],
  [c |-> 212, n |-> "camera", a |-> "", s |-> ""],
  [c |-> 213, n |-> "sound", a |-> "", s |-> ""],
  [c |-> 214, n |-> "question", a |-> "", s |-> ""],
  [c |-> 215, n |-> "email", a |-> "", s |-> ""],
  [c |-> 216, n |-> "chat", a |-> "", s |-> ""],
  [c |-> 217, n |-> "search", a |-> "", s |-> ""],
  [c |-> 218, n |-> "connect", a |-> "", s |-> ""],
  [c |-> 219, n |-> "finance", a |-> "", s |-> ""],
  [c |-> 220, n |-> "sport", a |-> "", s |-> ""],
  [c |-> 221, n |-> "shop", a |-> "", s |-> ""],
  [c |-> 222, n |-> "voicecommand", a |-> "", s |-> ""],
  [c |-> 223, n |-> "cancel", a |-> "", s |-> ""],
  [c |-> 224, n |-> "brightnessdown", a |-> "", s |-> ""],
  [c |-> 225, n |-> "brightnessup", a |-> "", s |-> ""],
  [c |-> 226, n |-> "media", a |-> "", s |-> ""],
  [c |-> 227, n |-> "switchvideomode", a |-> "", s |-> ""],
  [c |-> 228, n |-> "kbdillumtoggle", a |-> "", s |-> ""],
  [c |-> 229, n |-> "kbdillumdown", a |-> "", s |-> ""],
  [c |-> 230, n |-> "kbdillumup", a |-> "", s |-> ""],
  [c |-> 231, n |-> "send", a |-> "", s |-> ""],
  [c |-> 232, n |-> "reply", a |-> "", s |-> ""],
  [c |-> 233, n |-> "forwardmail", a |-> "", s |-> ""],
  [c |-> 234, n |-> "save", a |-> "", s |-> ""],
  [c |-> 235, n |-> "documents", a |-> "", s |-> ""],
  [c |-> 236, n |-> "battery", a |-> "", s |-> ""],
  [c |-> 237, n |-> "bluetooth", a |-> "", s |-> ""],
  [c |-> 238, n |-> "wlan", a |-> "", s |-> ""],
  [c |-> 239, n |-> "uwb", a |-> "", s |-> ""],
  [c |-> 240, n |-> "unknown", a |-> "", s |-> ""],
  [c |-> 241, n |-> "next", a |-> "", s |-> ""],
  [c |-> 242, n |-> "prev", a |-> "", s |-> ""],
  [c |-> 243, n |-> "cycle", a |-> "", s |-> ""],
  [c |-> 244, n |-> "auto", a |-> "", s |-> ""],
  [c |-> 245, n |-> "off", a |-> "", s |-> ""],
  [c |-> 246, n |-> "wwan", a |-> "", s |-> ""],
  [c |-> 247, n |-> "rfkill", a |-> "", s |-> ""],
  [c |-> 248, n |-> "micmute", a |-> "", s |-> ""],
  [c |-> 249, n |-> "leftmouse", a |-> "", s |-> ""],
  [c |-> 250, n |-> "middlemouse", a |-> "", s |-> ""],
  [c |-> 251, n |-> "rightmouse", a |-> "", s |-> ""],
  [c |-> 252, n |-> "mouse1", a |-> "", s |-> ""],
  [c |-> 253, n |-> "mouse2", a |-> "", s |-> ""],
  [c |-> 254, n |-> "fn", a |-> "", s |-> ""],
  [c |-> 255, n |-> "mouseforward", a |-> "", s |-> ""]
>>
=============================================================================
