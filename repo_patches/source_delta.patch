From fb5926eae72fc762e5d7f4162712352f164e9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 01/70] fix: macro: do not emit a key up for the delays inside
 a key group

macro(a+100ms+b) released key code 100 (rightalt) because the delay was
taken for one of the held keys.
---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..ad6f129 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -110,7 +110,9 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From a1293653083ac5b7d320c55e1f89cd0e8aade447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 02/70] fix: toggle: lift the modifiers of the oneshot layers
 it ends

The modifiers were updated before the pending oneshot layers were cleared, so
a oneshot modifier stayed down after a toggle key until some later key.
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..0b93cc8 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -708,8 +708,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				deactivate_layer(kbd, idx);
 
-			update_mods(kbd, -1, 0);
 			clear_oneshot(kbd);
+			update_mods(kbd, -1, 0);
 		}
 
 		break;
-- 
2.43.0


From a8c9baefb40622a773da6ea14295b0035ccc4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 03/70] fix: swap: do not leak an activation when the target is
 already toggled

A toggled layer owns a single activation; swapping another toggled layer for it
added a second one which nothing ever removed.
---
 src/keyboard.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 0b93cc8..96f423a 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -747,8 +747,10 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 				deactivate_layer(kbd, dl);
 				kbd->layer_state[dl].toggled = 0;
 
-				activate_layer(kbd, 0, idx);
-				kbd->layer_state[idx].toggled = 1;
+				if (!kbd->layer_state[idx].toggled) {
+					activate_layer(kbd, 0, idx);
+					kbd->layer_state[idx].toggled = 1;
+				}
 				update_mods(kbd, -1, 0);
 			} else if (kbd->layer_state[dl].oneshot_depth) {
 				deactivate_layer(kbd, dl);
-- 
2.43.0


From 020d16022e258028c8cb33a0946fc1186e8906fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 04/70] fix: swap: never hand the layer over to a held toggle
 key

A toggle key that is still down does not own the activation of its layer once
it has been toggled off; giving it the swapped layer left the real owner to
deactivate an inactive layer, which aborts.
---
 src/keyboard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 96f423a..983e8b1 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -765,6 +765,10 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					int layer = kbd->cache[i].layer;
 					int type = kbd->config.layers[layer].type;
 
+					/* A toggle key does not keep its layer active. */
+					if (kbd->cache[i].d.op == OP_TOGGLE || kbd->cache[i].d.op == OP_TOGGLEM)
+						continue;
+
 					if (code && layer == dl && type == LT_NORMAL && layer != 0) {
 						ce = &kbd->cache[i];
 						break;
-- 
2.43.0


From 6eba2d0397779e1ecef3d03ad2ecf19b19c43a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 05/70] fix: overloadi: keep the action chosen by a nested
 overloadi

The outer action overwrote the descriptor the inner one had selected, so the
release of the key was lost and its output stayed down.
---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 983e8b1..c61e425 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -552,13 +552,14 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				action = &kbd->config.descriptors[d->args[0].idx];
 
-			process_descriptor(kbd, code, action, dl, 1, time);
+			/* The action may itself update the entry, so this must come first. */
 			for (i = 0; i < CACHE_SIZE; i++) {
 				if (code == kbd->cache[i].code) {
 					kbd->cache[i].d = *action;
 					break;
 				}
 			}
+			process_descriptor(kbd, code, action, dl, 1, time);
 		}
 		break;
 	case OP_OVERLOAD_TIMEOUT_TAP:
-- 
2.43.0


From 61bd9a4725eb78d2dd9f3f40cdf543d2993bd65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 06/70] fix: overload: do not repeat a tapped macro2 forever

The tap started the repetition of the macro although its key was already up.
---
 src/keyboard.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index c61e425..c0162fd 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -634,12 +634,13 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			if (kbd->last_pressed_code == code &&
 			    (!kbd->config.overload_tap_timeout ||
 			     ((time - kbd->overload_start_time) < kbd->config.overload_tap_timeout))) {
-				if (action->op == OP_MACRO) {
+				if (action->op == OP_MACRO || action->op == OP_MACRO2) {
 					/*
 					 * Macro release relies on event logic, so we can't just synthesize a
 					 * descriptor release.
 					 */
-					struct macro *macro = &kbd->config.macros[action->args[0].idx];
+					size_t arg = action->op == OP_MACRO ? 0 : 2;
+					struct macro *macro = &kbd->config.macros[action->args[arg].idx];
 					execute_macro(kbd, dl, macro);
 				} else {
 					process_descriptor(kbd, code, action, dl, 1, time);
-- 
2.43.0


From 23b5e28cffd04dea587f5f272dceb0f35a68e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 07/70] fix: overload: resolve deferred tap actions at once

With timeout(), overloadt(), overloadt2() or overloadi() as the tap action the
decision was opened after the key had already been released, so the resolved
action was never released and stayed down.
---
 src/keyboard.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index c0162fd..50588e0 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -475,6 +475,36 @@ static long calculate_main_loop_timeout(struct keyboard *kbd, long time)
 	return timeout ? timeout - time : 0;
 }
 
+/*
+ * Returns the action which corresponds to an instantaneous tap of the
+ * given one (i.e the outcome of any decision it would otherwise defer).
+ */
+static struct descriptor *resolve_tap(struct keyboard *kbd,
+				      struct descriptor *d, long time)
+{
+	while (1) {
+		struct descriptor *descriptors = kbd->config.descriptors;
+
+		switch (d->op) {
+		case OP_TIMEOUT:
+			d = &descriptors[d->args[0].idx];
+			break;
+		case OP_OVERLOAD_TIMEOUT:
+		case OP_OVERLOAD_TIMEOUT_TAP:
+			d = &descriptors[d->args[1].idx];
+			break;
+		case OP_OVERLOAD_IDLE_TIMEOUT:
+			if ((time - kbd->last_simple_key_time) >= d->args[2].timeout)
+				d = &descriptors[d->args[1].idx];
+			else
+				d = &descriptors[d->args[0].idx];
+			break;
+		default:
+			return d;
+		}
+	}
+}
+
 static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			       const struct descriptor *d, int dl,
 			       int pressed, long time)
@@ -634,6 +664,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			if (kbd->last_pressed_code == code &&
 			    (!kbd->config.overload_tap_timeout ||
 			     ((time - kbd->overload_start_time) < kbd->config.overload_tap_timeout))) {
+				action = resolve_tap(kbd, action, time);
+
 				if (action->op == OP_MACRO || action->op == OP_MACRO2) {
 					/*
 					 * Macro release relies on event logic, so we can't just synthesize a
-- 
2.43.0


From a63ad60bfa61c2e76a846eeadcacaffac069157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 08/70] fix: let the first layer activated occlude the layout

The first activation time was also the one assigned to layouts, so the layout
took precedence over the very first layer activated when it was defined last.
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 50588e0..d823c32 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -15,7 +15,7 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 static long get_time()
 {
 	/* Close enough :/. Using a syscall is unnecessary. */
-	static long time = 1;
+	static long time = 2; /* 1 is reserved for layouts. */
 	return time++;
 }
 
-- 
2.43.0


From d10a86a2d2a1ab1d81420ae25c2fca81692c59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 09/70] fix: do not abort when more than 64 timeouts are
 outstanding

E.g. 64 taps of a oneshot key within a long oneshot_timeout.
---
 src/keyboard.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index d823c32..60f74ec 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -453,7 +453,13 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 
 static void schedule_timeout(struct keyboard *kbd, long timeout)
 {
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
+	/* Discard the oldest entry, which has most likely been superseded. */
+	if (kbd->nr_timeouts == ARRAY_SIZE(kbd->timeouts)) {
+		kbd->nr_timeouts--;
+		memmove(kbd->timeouts, kbd->timeouts + 1,
+			kbd->nr_timeouts * sizeof kbd->timeouts[0]);
+	}
+
 	kbd->timeouts[kbd->nr_timeouts++] = timeout;
 }
 
-- 
2.43.0


From 695dcd2f33fe7de0f91134eeb0b83e044fb52ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 10/70] fix: do not abort when more than 32 events precede a
 decision

Typing through a long overloadt() or overloadt2() timeout overflowed the queue.
---
 src/keyboard.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 60f74ec..c2c58af 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1079,11 +1079,19 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 	struct descriptor action = {0};
 
+	/* Decide early rather than overflowing the queue. */
+	while (code && kbd->pending_key.code &&
+	       kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue)) {
+		kbd->pending_key.expire = time;
+		handle_pending_key(kbd, 0, 0, time);
+	}
+
+	if (!kbd->pending_key.code)
+		return 0;
+
 	if (code) {
 		struct key_event *ev;
 
-		assert(kbd->pending_key.queue_sz < ARRAY_SIZE(kbd->pending_key.queue));
-
 		if (!pressed) {
 			size_t i;
 			int found = 0;
-- 
2.43.0


From 77f3cd36bd96fbb0d122d0878ac40fb621ecef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 11/70] fix: do not abort when more than 32 events precede a
 chord decision

Typing through a long chord_hold_timeout overflowed the queue.
---
 src/keyboard.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index c2c58af..81535f7 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -970,6 +970,13 @@ static int handle_chord(struct keyboard *kbd,
 		}
 	}
 
+	/* Decide early rather than overflowing the queue. */
+	if (code &&
+	    (kbd->chord.state == CHORD_PENDING_DISAMBIGUATION ||
+	     kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT) &&
+	    kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
+		resolve_chord(kbd);
+
 	switch (kbd->chord.state) {
 	case CHORD_RESOLVING:
 		return 0;
-- 
2.43.0


From 4e49160239693f2625599cb60989ec2352850292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 12/70] fix: do not abort on a fourth simultaneous chord, nor
 confuse queued chords

With all chord slots in use the keys are now processed individually, and a slot
is not reused while events of its previous chord are still queued behind a
pending decision (they ran the action of the new chord).
---
 src/keyboard.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81535f7..77b6991 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -888,6 +888,24 @@ struct keyboard *new_keyboard(struct config *config, const struct output *output
 	return kbd;
 }
 
+/* Returns 1 if an event for the given code is awaiting a pending decision. */
+static int is_pending(struct keyboard *kbd, uint8_t code)
+{
+	size_t i;
+
+	if (!kbd->pending_key.code)
+		return 0;
+
+	if (kbd->pending_key.code == code)
+		return 1;
+
+	for (i = 0; i < kbd->pending_key.queue_sz; i++)
+		if (kbd->pending_key.queue[i].code == code)
+			return 1;
+
+	return 0;
+}
+
 static int resolve_chord(struct keyboard *kbd)
 {
 	size_t queue_offset = 0;
@@ -901,7 +919,7 @@ static int resolve_chord(struct keyboard *kbd)
 
 		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {
 			struct active_chord *ac = &kbd->active_chords[i];
-			if (!ac->active) {
+			if (!ac->active && !is_pending(kbd, KEYD_CHORD_1 + i)) {
 				ac->active = 1;
 				ac->chord = *chord;
 				ac->layer = kbd->chord.match_layer;
@@ -911,10 +929,11 @@ static int resolve_chord(struct keyboard *kbd)
 			}
 		}
 
-		assert(code);
-
-		queue_offset = chord->sz;
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+		/* If there are no free slots, the keys are processed individually. */
+		if (code) {
+			queue_offset = chord->sz;
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
 
-- 
2.43.0


From 373d112a33b701fc8a6c1dbceaa61c4cb411ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 13/70] fix: honour timeouts which elapse while events are
 queued

A timeout started by a queued event and due before the queue was replayed was
dropped, so its effect only appeared with the next key (and keys struck much
later could still complete a chord).
---
 src/keyboard.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 77b6991..75ed982 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -906,8 +906,10 @@ static int is_pending(struct keyboard *kbd, uint8_t code)
 	return 0;
 }
 
-static int resolve_chord(struct keyboard *kbd)
+static int resolve_chord(struct keyboard *kbd, long time)
 {
+	struct key_event queue[ARRAY_SIZE(kbd->chord.queue)+1];
+	size_t queue_sz;
 	size_t queue_offset = 0;
 	const struct chord *chord = kbd->chord.match;
 
@@ -937,17 +939,21 @@ static int resolve_chord(struct keyboard *kbd)
 	}
 
 
-	kbd_process_events(kbd,
-			   kbd->chord.queue + queue_offset,
-			   kbd->chord.queue_sz - queue_offset);
+	queue_sz = kbd->chord.queue_sz - queue_offset;
+	memcpy(queue, kbd->chord.queue + queue_offset, queue_sz * sizeof queue[0]);
+
+	/* Account for timeouts which elapsed since the last queued event. */
+	queue[queue_sz++] = (struct key_event){ .timestamp = time-1 };
+
+	kbd_process_events(kbd, queue, queue_sz);
 	kbd->chord.state = CHORD_INACTIVE;
 	return 1;
 }
 
-static int abort_chord(struct keyboard *kbd)
+static int abort_chord(struct keyboard *kbd, long time)
 {
 	kbd->chord.match = NULL;
-	return resolve_chord(kbd);
+	return resolve_chord(kbd, time);
 }
 
 static int handle_chord(struct keyboard *kbd,
@@ -994,7 +1000,7 @@ static int handle_chord(struct keyboard *kbd,
 	    (kbd->chord.state == CHORD_PENDING_DISAMBIGUATION ||
 	     kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT) &&
 	    kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
-		resolve_chord(kbd);
+		resolve_chord(kbd, time);
 
 	switch (kbd->chord.state) {
 	case CHORD_RESOLVING:
@@ -1022,7 +1028,7 @@ static int handle_chord(struct keyboard *kbd,
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					schedule_timeout(kbd, time + hold_timeout);
 				} else {
-					return resolve_chord(kbd);
+					return resolve_chord(kbd, time);
 				}
 				return 1;
 		}
@@ -1035,10 +1041,10 @@ static int handle_chord(struct keyboard *kbd,
 						schedule_timeout(kbd, time + timeleft);
 						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					} else {
-						return resolve_chord(kbd);
+						return resolve_chord(kbd, time);
 					}
 				} else {
-					return abort_chord(kbd);
+					return abort_chord(kbd, time);
 				}
 
 				return 1;
@@ -1050,11 +1056,11 @@ static int handle_chord(struct keyboard *kbd,
 		enqueue_chord_event(kbd, code, pressed, time);
 
 		if (!pressed)
-			return abort_chord(kbd);
+			return abort_chord(kbd, time);
 
 		switch (check_chord_match(kbd, &kbd->chord.match, &kbd->chord.match_layer)) {
 			case 0:
-				return abort_chord(kbd);
+				return abort_chord(kbd, time);
 			case 3:
 			case 1:
 				kbd->chord.last_code_time = time;
@@ -1070,14 +1076,14 @@ static int handle_chord(struct keyboard *kbd,
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					schedule_timeout(kbd, time + hold_timeout);
 				} else {
-					return resolve_chord(kbd);
+					return resolve_chord(kbd, time);
 				}
 				return 1;
 		}
 	case CHORD_PENDING_HOLD_TIMEOUT:
 		if (!code) {
 			if ((time - kbd->chord.last_code_time) >= hold_timeout)
-				return resolve_chord(kbd);
+				return resolve_chord(kbd, time);
 
 			return 0;
 		}
@@ -1089,7 +1095,7 @@ static int handle_chord(struct keyboard *kbd,
 
 			for (i = 0; i < kbd->chord.match->sz; i++)
 				if (kbd->chord.match->keys[i] == code)
-					return abort_chord(kbd);
+					return abort_chord(kbd, time);
 		}
 
 		return 1;
@@ -1166,7 +1172,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)];
+		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)+1];
 		size_t queue_sz = kbd->pending_key.queue_sz;
 
 		uint8_t code = kbd->pending_key.code;
@@ -1174,6 +1180,9 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 		memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);
 
+		/* Account for timeouts which elapsed since the last queued event. */
+		queue[queue_sz++] = (struct key_event){ .timestamp = time-1 };
+
 		kbd->pending_key.code = 0;
 		kbd->pending_key.queue_sz = 0;
 		kbd->pending_key.tap_expiry = 0;
-- 
2.43.0


From 1b1c774791ddf0b75dbb4c2ee435a36d3e8f8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 14/70] fix: expire a queued chord key whose timeout coincides
 with the decision

Its timeout was dropped, so the key was withheld until the next one and could
still complete a chord much later.
---
 src/keyboard.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 75ed982..1643c3c 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1196,6 +1196,9 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 		/* Flush queued events */
 		kbd_process_events(kbd, queue, queue_sz);
+
+		/* A chord started by a queued key may have just expired. */
+		handle_chord(kbd, 0, 0, time);
 	}
 
 	return 1;
-- 
2.43.0


From 9951da171c2636d2a56270954600fe3dd6e59312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 15/70] fix: macro: account for the keys lifted by a macro

A macro containing e.g. C-x lifted the control key of an active layer without
the engine noticing, so later keys were sent without control although the layer
was still held.
---
 src/keyboard.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 1643c3c..82c2cf2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -157,6 +157,36 @@ static void update_mods(struct keyboard *kbd, int excluded_layer_idx, uint8_t mo
 	set_mods(kbd, mods);
 }
 
+/* Macros emit keys directly, and leave all of them up. */
+static void sync_keystate(struct keyboard *kbd, const struct macro *macro)
+{
+	size_t i, j;
+
+	for (i = 0; i < macro->sz; i++) {
+		const struct macro_entry *ent = &macro->entries[i];
+		uint8_t codes[4];
+
+		switch (ent->type) {
+		case MACRO_KEYSEQUENCE:
+			for (j = 0; j < ARRAY_SIZE(modifiers); j++)
+				if ((ent->data >> 8) & modifiers[j].mask)
+					kbd->keystate[modifiers[j].key] = 0;
+			/* fall through */
+		case MACRO_HOLD:
+			kbd->keystate[ent->data & 0xFF] = 0;
+			break;
+		case MACRO_UNICODE:
+			unicode_get_sequence(ent->data, codes);
+
+			for (j = 0; j < ARRAY_SIZE(codes); j++)
+				kbd->keystate[codes[j]] = 0;
+			break;
+		default:
+			break;
+		}
+	}
+}
+
 static void execute_macro(struct keyboard *kbd, int dl, const struct macro *macro)
 {
 	/* Minimize redundant modifier strokes for simple key sequences. */
@@ -170,6 +200,7 @@ static void execute_macro(struct keyboard *kbd, int dl, const struct macro *macr
 	} else {
 		update_mods(kbd, dl, 0);
 		macro_execute(kbd->output.send_key, macro, kbd->config.macro_sequence_timeout);
+		sync_keystate(kbd, macro);
 	}
 }
 
-- 
2.43.0


From f6400ec8a9ba6f8c147d6eb0dff3913bc23f8f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 16/70] fix: config: reject actions with too many arguments
 instead of aborting

---
 src/config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 74383aa..5db1943 100644
--- a/src/config.c
+++ b/src/config.c
@@ -453,7 +453,9 @@ exit:
 			return -1;
 
 		if (arg != c) {
-			assert(*nargs < 5);
+			if (*nargs >= 5)
+				return -1;
+
 			args[(*nargs)++] = arg;
 		}
 
-- 
2.43.0


From 20ab02a6e5506244a680a70f1c170add3c1fbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 17/70] fix: config: do not abort on truncated UTF-8

---
 src/string.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..2f6a9ba 100644
--- a/src/string.c
+++ b/src/string.c
@@ -11,22 +11,28 @@ int utf8_read_char(const char *_s, uint32_t *code)
 {
 	const unsigned char *s = (const unsigned char*)_s;
 
+	int i;
+	int sz = s[0] >= 0xF0 ? 4 :
+		 s[0] >= 0xE0 ? 3 :
+		 s[0] >= 0xC0 ? 2 : 1;
+
 	if (!s[0])
 		return 0;
 
+	/* Truncated sequence. */
+	for (i = 1; i < sz; i++)
+		if (!s[i]) {
+			*code = 0;
+			return 1;
+		}
+
 	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
 	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
 	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
 	} else {
-- 
2.43.0


From a2c3d6d82978c3517738129df1a5f2b2140f7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 18/70] fix: config: ignore excess sections, entries and ids
 instead of aborting

---
 src/config.c |  6 ++----
 src/ini.c    | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/config.c b/src/config.c
index 5db1943..bd32d70 100644
--- a/src/config.c
+++ b/src/config.c
@@ -775,23 +775,21 @@ static void parse_id_section(struct config *config, struct ini_section *section)
 
 		if (!strcmp(s, "*")) {
 			config->wildcard = 1;
+		} else if (config->nr_ids >= ARRAY_SIZE(config->ids)) {
+			warn("max ids (%zd) exceeded, ignoring %s", ARRAY_SIZE(config->ids), s);
 		} else if (strstr(s, "m:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "k:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "-") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_EXCLUDED;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);
 		} else if (strlen(s) < sizeof(config->ids[config->nr_ids].id)-1) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD | ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s);
diff --git a/src/ini.c b/src/ini.c
index 6029293..3b24fc6 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -14,6 +14,7 @@
 #include <assert.h>
 
 #include "ini.h"
+#include "log.h"
 #define MAX_INI_SIZE 65536
 
 /*
@@ -69,6 +70,7 @@ void parse_kvp(char *s, char **key, char **value)
 struct ini *ini_parse_string(char *s, const char *default_section_name)
 {
 	static struct ini ini;
+	static struct ini_section excess;
 
 	int ln = 0;
 	size_t n = 0;
@@ -107,13 +109,18 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 		switch (line[0]) {
 		case '[':
 			if (line[len-1] == ']') {
-				assert(n < MAX_SECTIONS);
-
-				section = &ini.sections[n++];
-
 				line[len-1] = 0;
 
-				strncpy(section->name, line+1, sizeof(section->name));
+				if (n < MAX_SECTIONS) {
+					section = &ini.sections[n++];
+				} else {
+					keyd_log("\tr{ERROR:} line m{%d}: max sections (%d) exceeded, ignoring [%s]\n",
+						 ln, MAX_SECTIONS, line+1);
+					section = &excess;
+				}
+
+				strncpy(section->name, line+1, sizeof(section->name)-1);
+				section->name[sizeof(section->name)-1] = 0;
 				section->nr_entries = 0;
 				section->lnum = ln;
 
@@ -136,7 +143,11 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 				return NULL;
 		}
 
-		assert(section->nr_entries < MAX_SECTION_ENTRIES);
+		if (section->nr_entries >= MAX_SECTION_ENTRIES) {
+			keyd_log("\tr{ERROR:} line m{%d}: max section entries (%d) exceeded, ignoring\n",
+				 ln, MAX_SECTION_ENTRIES);
+			continue;
+		}
 
 		ent = &section->entries[section->nr_entries++];
 		parse_kvp(line, &ent->key, &ent->val);
-- 
2.43.0


From 2f84f6a22171d17c4ff405afaa28bf78356a785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 19/70] fix: config: enforce the limit on composite layer
 constituents

More than 8 constituents overflowed the array.
---
 src/config.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/config.c b/src/config.c
index bd32d70..500056c 100644
--- a/src/config.c
+++ b/src/config.c
@@ -315,7 +315,6 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 
 	if (strchr(name, '+')) {
 		char *layername;
-		int n = 0;
 
 		layer->type = LT_COMPOSITE;
 		layer->nr_constituents = 0;
@@ -333,8 +332,8 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 				return -1;
 			}
 
-			if (n >= ARRAY_SIZE(layer->constituents)) {
-				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
+			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
+				err("max composite layers (%zd) exceeded", ARRAY_SIZE(layer->constituents));
 				return -1;
 			}
 
-- 
2.43.0


From f7bb9f9859bc091a16ebf6ffe6f17214a19d7c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 20/70] fix: config: do not crash on a section without a name

---
 src/config.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/config.c b/src/config.c
index 500056c..c66d7d0 100644
--- a/src/config.c
+++ b/src/config.c
@@ -377,6 +377,11 @@ static int config_add_layer(struct config *config, const char *s)
 	strcpy(buf, s);
 	name = strtok(buf, ":");
 
+	if (!name) {
+		err("[%s] is not a valid section", s);
+		return -1;
+	}
+
 	if (config_get_layer_index(config, name) != -1)
 			return 1;
 
@@ -868,6 +873,8 @@ static int config_parse_string(struct config *config, char *content)
 			continue;
 
 		layername = strtok(section->name, ":");
+		if (!layername)
+			continue;
 
 		for (j = 0; j < section->nr_entries;j++) {
 			char entry[MAX_EXP_LEN];
-- 
2.43.0


From 83278fbcecc7ea452cbc3788e8a4cd9cb9149120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 21/70] fix: config: do not crash on options and aliases
 without a value

---
 src/config.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index c66d7d0..69d9e0a 100644
--- a/src/config.c
+++ b/src/config.c
@@ -742,7 +742,9 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 	for (i = 0; i < section->nr_entries;i++) {
 		struct ini_entry *ent = &section->entries[i];
 
-		if (!strcmp(ent->key, "macro_timeout"))
+		if (!ent->val)
+			warn("line %zd: %s requires a value", ent->lnum, ent->key)
+		else if (!strcmp(ent->key, "macro_timeout"))
 			config->macro_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
 			config->macro_sequence_timeout = atoi(ent->val);
@@ -812,6 +814,11 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 		struct ini_entry *ent = &section->entries[i];
 		const char *name = ent->val;
 
+		if (!name) {
+			warn("line %zd: %s requires a value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if ((code = lookup_keycode(ent->key))) {
 			ssize_t len = strlen(name);
 
-- 
2.43.0


From 2ec74d0fe83e27d338e42f5e7a419be4227dc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 22/70] fix: config: do not take a '.' on the right hand side
 for a layer separator

'keyd bind "a = ."' failed.
---
 src/config.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 69d9e0a..43095ce 100644
--- a/src/config.c
+++ b/src/config.c
@@ -998,7 +998,7 @@ int config_get_layer_index(const struct config *config, const char *name)
  */
 int config_add_entry(struct config *config, const char *exp)
 {
-	char *keyname, *descstr, *dot, *paren, *s;
+	char *keyname, *descstr, *dot, *paren, *eq, *s;
 	char *layername = "main";
 	struct descriptor d;
 	struct layer *layer;
@@ -1016,8 +1016,10 @@ int config_add_entry(struct config *config, const char *exp)
 
 	dot = strchr(s, '.');
 	paren = strchr(s, '(');
+	/* The key may itself be = */
+	eq = *s ? strchr(s+1, '=') : NULL;
 
-	if (dot && dot != s && (!paren || dot < paren)) {
+	if (dot && dot != s && (!paren || dot < paren) && (!eq || dot < eq)) {
 		layername = s;
 		*dot = 0;
 		s = dot+1;
-- 
2.43.0


From c1ed15b5851a3869a71c7ebc8e985e88142e52d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 23/70] fix: config: reject empty keys

An empty key on the left hand side bound every key without an alias, an empty
chord replaced an unrelated one, and C- was accepted as C-leftcontrol.
---
 src/config.c | 9 +++++++++
 src/keys.c   | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 43095ce..67cb753 100644
--- a/src/config.c
+++ b/src/config.c
@@ -237,6 +237,11 @@ static int set_layer_entry(const struct config *config,
 	size_t i;
 	int found = 0;
 
+	if (!key[0]) {
+		err("missing key");
+		return -1;
+	}
+
 	if (strchr(key, '+')) {
 		//TODO: Handle aliases
 		char *tok;
@@ -259,6 +264,10 @@ static int set_layer_entry(const struct config *config,
 			keys[n++] = code;
 		}
 
+		if (!n) {
+			err("empty chord");
+			return -1;
+		}
 
 		if ((ld = layer_lookup_chord(layer, keys, n))) {
 			*ld = *d;
diff --git a/src/keys.c b/src/keys.c
index 77d055f..169d1ef 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -44,7 +44,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_LEFTBRACE] = { "[", "leftbrace", "{" },
 	[KEYD_RIGHTBRACE] = { "]", "rightbrace", "}" },
 	[KEYD_ENTER] = { "enter", NULL, NULL },
-	[KEYD_LEFTCTRL] = { "leftcontrol", "", NULL },
+	[KEYD_LEFTCTRL] = { "leftcontrol", NULL, NULL },
 	[KEYD_IS_LEVEL3_SHIFT] = { "iso-level3-shift", NULL, NULL }, //Oddly missing from input-event-codes.h, appears to be used as altgr in an english keymap on X
 	[KEYD_A] = { "a", NULL, "A" },
 	[KEYD_S] = { "s", NULL, "S" },
-- 
2.43.0


From c4b772a39eaafbff9e9ed6ade44f08dec5923786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 24/70] fix: config: do not replace a chord with one of its
 subsets

Defining a+b after a+b+c overwrote the latter.
---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 67cb753..8626c30 100644
--- a/src/config.c
+++ b/src/config.c
@@ -218,7 +218,7 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 				}
 		}
 
-		if (nm == n)
+		if (nm == n && chord->sz == n)
 			return &chord->d;
 	}
 
-- 
2.43.0


From e440f08177566d4a5ca7737f2f19a97438fcb36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 25/70] fix: config: terminate lines and files correctly when
 reading them

The last line of a file was left unterminated when it lacked a newline, the
first line after an include was glued to an included file lacking one, and a
file of the maximum size (or one with a leading NUL) overran the buffer.
---
 src/config.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 8626c30..b05fd4b 100644
--- a/src/config.c
+++ b/src/config.c
@@ -110,7 +110,7 @@ static char *read_file(const char *path)
 {
 	const char include_prefix[] = "include ";
 
-	static char buf[MAX_FILE_SZ];
+	static char buf[MAX_FILE_SZ+1];
 	char line[MAX_LINE_LEN+1];
 	int sz = 0;
 
@@ -123,12 +123,17 @@ static char *read_file(const char *path)
 	while (fgets(line, sizeof line, fh)) {
 		int len = strlen(line);
 
+		/* Embedded NUL. */
+		if (!len)
+			continue;
+
 		if (line[len-1] != '\n') {
 			if (len >= MAX_LINE_LEN) {
 				err("maximum line length exceed (%d)", MAX_LINE_LEN);
 				goto fail;
 			} else {
 				line[len++] = '\n';
+				line[len] = 0;
 			}
 		}
 
@@ -164,6 +169,15 @@ static char *read_file(const char *path)
 				while ((n = read(fd, buf+sz, sizeof(buf)-sz)) > 0)
 					sz += n;
 				close(fd);
+
+				/* The included file may lack a trailing newline. */
+				if (sz && sz < MAX_FILE_SZ && buf[sz-1] != '\n')
+					buf[sz++] = '\n';
+
+				if (sz > MAX_FILE_SZ) {
+					err("maximum file size exceed (%d)", MAX_FILE_SZ);
+					goto fail;
+				}
 			}
 		} else {
 			strcpy(buf+sz, line);
-- 
2.43.0


From ed0539f14c713738507db1d1dace7ca625ff9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 26/70] fix: config: reject overlong expressions instead of
 truncating them

---
 src/config.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index b05fd4b..2e48bd3 100644
--- a/src/config.c
+++ b/src/config.c
@@ -915,7 +915,12 @@ static int config_parse_string(struct config *config, char *content)
 				continue;
 			}
 
-			snprintf(entry, sizeof entry, "%s.%s = %s", layername, ent->key, ent->val);
+			if (snprintf(entry, sizeof entry, "%s.%s = %s",
+				     layername, ent->key, ent->val) >= (int)sizeof entry) {
+				keyd_log("\tr{ERROR:} line m{%zd}: maximum expression length (%d) exceeded\n",
+					 ent->lnum, MAX_EXP_LEN);
+				continue;
+			}
 
 			if (config_add_entry(config, entry) < 0)
 				keyd_log("\tr{ERROR:} line m{%zd}: %s\n", ent->lnum, errstr);
-- 
2.43.0


From 086bf4de7d185094027a2b486683a6e752de7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 27/70] fix: config: keep the expansion of lettermod alive
 while it is in use

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 2e48bd3..e70fd8c 100644
--- a/src/config.c
+++ b/src/config.c
@@ -643,9 +643,9 @@ static int parse_descriptor(char *s,
 		return 0;
 	} else if (!parse_fn(s, &fn, args, &nargs)) {
 		int i;
+		char buf[1024];
 
 		if (!strcmp(fn, "lettermod")) {
-			char buf[1024];
 
 			if (nargs != 4) {
 				err("%s requires 4 arguments", fn);
-- 
2.43.0


From 8c395a6cc271b61afee8c000df558582214e7504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 28/70] fix: config: do not read past the end of an incomplete
 key sequence

---
 src/keys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keys.c b/src/keys.c
index 169d1ef..4d7c62a 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -353,7 +353,7 @@ int parse_key_sequence(const char *s, uint8_t *codep, uint8_t *modsp)
 
 	uint8_t mods = 0;
 
-	while (c[1] == '-') {
+	while (c[0] && c[1] == '-') {
 		switch (*c) {
 		case 'C':
 			mods |= MOD_CTRL;
-- 
2.43.0


From 3349485ce3733a055abbe582ded3b7a86a6d75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 29/70] fix: do not delay a held chord when woken up late

---
 src/keyboard.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 82c2cf2..76d1b76 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1067,9 +1067,8 @@ static int handle_chord(struct keyboard *kbd,
 		if (!code) {
 			if ((time - kbd->chord.last_code_time) >= interkey_timeout) {
 				if (kbd->chord.match) {
-					long timeleft = hold_timeout - interkey_timeout;
-					if (timeleft > 0) {
-						schedule_timeout(kbd, time + timeleft);
+					if ((time - kbd->chord.last_code_time) < hold_timeout) {
+						schedule_timeout(kbd, kbd->chord.last_code_time + hold_timeout);
 						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					} else {
 						return resolve_chord(kbd, time);
-- 
2.43.0


From 1cbaffae249648cc79697f7e705b03f9800f9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 30/70] fix: config: do not take an empty name for a modifier
 key

---
 src/keys.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keys.c b/src/keys.c
index 4d7c62a..defc8a6 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -58,7 +58,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SEMICOLON] = { ";", "semicolon", ":" },
 	[KEYD_APOSTROPHE] = { "'", "apostrophe", "\"" },
 	[KEYD_GRAVE] = { "`", "grave", "~" },
-	[KEYD_LEFTSHIFT] = { "leftshift", "", NULL },
+	[KEYD_LEFTSHIFT] = { "leftshift", NULL, NULL },
 	[KEYD_BACKSLASH] = { "\\", "backslash", "|" },
 	[KEYD_Z] = { "z", NULL, "Z" },
 	[KEYD_X] = { "x", NULL, "X" },
@@ -72,7 +72,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SLASH] = { "/", "slash", "?" },
 	[KEYD_RIGHTSHIFT] = { "rightshift", NULL, NULL },
 	[KEYD_KPASTERISK] = { "kpasterisk", NULL, NULL },
-	[KEYD_LEFTALT] = { "leftalt", "", NULL },
+	[KEYD_LEFTALT] = { "leftalt", NULL, NULL },
 	[KEYD_SPACE] = { "space", NULL, NULL },
 	[KEYD_CAPSLOCK] = { "capslock", NULL, NULL },
 	[KEYD_F1] = { "f1", NULL, NULL },
@@ -140,7 +140,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_HANGEUL] = { "hangeul", NULL, NULL },
 	[KEYD_HANJA] = { "hanja", NULL, NULL },
 	[KEYD_YEN] = { "yen", NULL, NULL },
-	[KEYD_LEFTMETA] = { "leftmeta", "", NULL },
+	[KEYD_LEFTMETA] = { "leftmeta", NULL, NULL },
 	[KEYD_RIGHTMETA] = { "rightmeta", NULL, NULL },
 	[KEYD_COMPOSE] = { "compose", NULL, NULL },
 	[KEYD_STOP] = { "stop", NULL, NULL },
-- 
2.43.0


From 088e22d8429ebfd5f1156659468847ba8deae710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 31/70] fix: lift the modifiers of single key macros run by
 clearm and overload

---
 src/keyboard.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 76d1b76..63bd9d0 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -680,6 +680,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			clear(kbd);
 			macro = &kbd->config.macros[d->args[0].idx];
 			execute_macro(kbd, dl, macro);
+			update_mods(kbd, dl, 0);
 		}
 		break;
 	case OP_CLEAR:
@@ -711,6 +712,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					size_t arg = action->op == OP_MACRO ? 0 : 2;
 					struct macro *macro = &kbd->config.macros[action->args[arg].idx];
 					execute_macro(kbd, dl, macro);
+					update_mods(kbd, dl, 0);
 				} else {
 					process_descriptor(kbd, code, action, dl, 1, time);
 					process_descriptor(kbd, code, action, dl, 0, time);
-- 
2.43.0


From 6a3744166f01daa4cb55646866ea7ac8f04f4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 32/70] fix: do not miss timeouts which coincide with a
 decision

---
 src/keyboard.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 63bd9d0..eb18116 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -980,6 +980,11 @@ static int resolve_chord(struct keyboard *kbd, long time)
 
 	kbd_process_events(kbd, queue, queue_sz);
 	kbd->chord.state = CHORD_INACTIVE;
+
+	/* Something started by a queued key may have just expired. */
+	if (!kbd->pending_key.code)
+		process_event(kbd, 0, 0, time);
+
 	return 1;
 }
 
@@ -1229,8 +1234,11 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		/* Flush queued events */
 		kbd_process_events(kbd, queue, queue_sz);
 
-		/* A chord started by a queued key may have just expired. */
-		handle_chord(kbd, 0, 0, time);
+		/* Something started by a queued key may have just expired. */
+		if (kbd->pending_key.code)
+			handle_chord(kbd, 0, 0, time);
+		else
+			process_event(kbd, 0, 0, time);
 	}
 
 	return 1;
-- 
2.43.0


From 86392c327e559991ed65c4f6d980119c7f772180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 33/70] fix: ignore repeated key down events wherever the key
 is held up

A second key down of a key which belongs to a pending or an active chord, or
which waits for a decision, used to count as another key: it could complete
a chord on its own or was left down when the chord ended.
---
 src/keyboard.c | 33 +++++++++++++++++++++++++++++----
 src/keyboard.h |  3 +++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index eb18116..ab88508 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -7,6 +7,7 @@
 #include "keyd.h"
 
 static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long time);
+static long process_events(struct keyboard *kbd, const struct key_event *events, size_t n, int queued);
 
 /*
  * Here be tiny dragons.
@@ -978,7 +979,7 @@ static int resolve_chord(struct keyboard *kbd, long time)
 	/* Account for timeouts which elapsed since the last queued event. */
 	queue[queue_sz++] = (struct key_event){ .timestamp = time-1 };
 
-	kbd_process_events(kbd, queue, queue_sz);
+	process_events(kbd, queue, queue_sz, 1);
 	kbd->chord.state = CHORD_INACTIVE;
 
 	/* Something started by a queued key may have just expired. */
@@ -1232,7 +1233,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		process_descriptor(kbd, code, &action, dl, 1, time);
 
 		/* Flush queued events */
-		kbd_process_events(kbd, queue, queue_sz);
+		process_events(kbd, queue, queue_sz, 1);
 
 		/* Something started by a queued key may have just expired. */
 		if (kbd->pending_key.code)
@@ -1316,7 +1317,24 @@ exit:
 }
 
 
-long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
+/*
+ * Guard against successive key down (or up) events of the same key code. These
+ * can be caused by unorthodox hardware or by different devices mapped to the
+ * same config.
+ */
+static int is_redundant(struct keyboard *kbd, const struct key_event *ev)
+{
+	if (!ev->code)
+		return 0;
+
+	if (kbd->input_keystate[ev->code] == !!ev->pressed)
+		return 1;
+
+	kbd->input_keystate[ev->code] = !!ev->pressed;
+	return 0;
+}
+
+static long process_events(struct keyboard *kbd, const struct key_event *events, size_t n, int queued)
 {
 	size_t i = 0;
 	int timeout = 0;
@@ -1329,7 +1347,9 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 			timeout = process_event(kbd, 0, 0, timeout_ts);
 			timeout_ts = timeout_ts + timeout;
 		} else {
-			timeout = process_event(kbd, ev->code, ev->pressed, ev->timestamp);
+			uint8_t code = !queued && is_redundant(kbd, ev) ? 0 : ev->code;
+
+			timeout = process_event(kbd, code, ev->pressed, ev->timestamp);
 			timeout_ts = ev->timestamp + timeout;
 			i++;
 		}
@@ -1338,6 +1358,11 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 	return timeout;
 }
 
+long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
+{
+	return process_events(kbd, events, n, 0);
+}
+
 int kbd_eval(struct keyboard *kbd, const char *exp)
 {
 	if (!strcmp(exp, "reset")) {
diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..0ba2ebb 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -124,6 +124,9 @@ struct keyboard {
 
 	uint8_t keystate[256];
 
+	/* The keys which are physically down. */
+	uint8_t input_keystate[256];
+
 	struct {
 		int x;
 		int y;
-- 
2.43.0


From 37f510a56c6130d8fa43136ef95cd613a629008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 34/70] fix: do not reorder the keys of a chord which is
 undecided when a tap/hold decision is made

The queued keys used to be appended to the queue of the chord under
consideration, which contains later keys.
---
 src/keyboard.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index ab88508..4f0d9df 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1210,7 +1210,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)+1];
+		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)+ARRAY_SIZE(kbd->chord.queue)+1];
 		size_t queue_sz = kbd->pending_key.queue_sz;
 
 		uint8_t code = kbd->pending_key.code;
@@ -1218,6 +1218,14 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 		memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);
 
+		/* Events withheld by an undecided chord come after the queued ones. */
+		if (kbd->chord.state == CHORD_PENDING_DISAMBIGUATION ||
+		    kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT) {
+			memcpy(queue+queue_sz, kbd->chord.queue, kbd->chord.queue_sz * sizeof queue[0]);
+			queue_sz += kbd->chord.queue_sz;
+			kbd->chord.state = CHORD_INACTIVE;
+		}
+
 		/* Account for timeouts which elapsed since the last queued event. */
 		queue[queue_sz++] = (struct key_event){ .timestamp = time-1 };
 
-- 
2.43.0


From a170e6199d55bbbc40ec51a7f48faa6037763784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 35/70] fix: do not lose a chord which is completed while the
 end of another one is withheld

The slot of the chord which had ended was reused before its release was
processed, so the new chord was taken for a repeated key down event.
---
 src/keyboard.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 4f0d9df..720badd 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -922,11 +922,16 @@ struct keyboard *new_keyboard(struct config *config, const struct output *output
 	return kbd;
 }
 
-/* Returns 1 if an event for the given code is awaiting a pending decision. */
+/* Returns 1 if an event for the given code is awaiting a pending decision or chord. */
 static int is_pending(struct keyboard *kbd, uint8_t code)
 {
 	size_t i;
 
+	if (kbd->chord.state != CHORD_INACTIVE)
+		for (i = 0; i < kbd->chord.queue_sz; i++)
+			if (kbd->chord.queue[i].code == code)
+				return 1;
+
 	if (!kbd->pending_key.code)
 		return 0;
 
-- 
2.43.0


From 7c1739f1277bf03a695a884def604b6a23568c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 36/70] fix: do not mistake a queued key up event for the end
 of a chord struck later

If the key of a chord was tapped before the chord, all of it while a tap/hold
decision was pending, the chord was never released.
---
 src/keyboard.c | 15 +++++++++++++++
 src/keyboard.h |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 720badd..aba4879 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -962,6 +962,7 @@ static int resolve_chord(struct keyboard *kbd, long time)
 			struct active_chord *ac = &kbd->active_chords[i];
 			if (!ac->active && !is_pending(kbd, KEYD_CHORD_1 + i)) {
 				ac->active = 1;
+				ac->queued = 0;
 				ac->chord = *chord;
 				ac->layer = kbd->chord.match_layer;
 				code = KEYD_CHORD_1 + i;
@@ -1012,6 +1013,10 @@ static int handle_chord(struct keyboard *kbd,
 			struct active_chord *ac = &kbd->active_chords[i];
 			uint8_t chord_code = KEYD_CHORD_1 + i;
 
+			/* Queued key up events precede queued chords. */
+			if (ac->queued && kbd->replaying)
+				continue;
+
 			if (ac->active) {
 				size_t i;
 				int nremaining = 0;
@@ -1180,6 +1185,9 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 				return 0;
 		}
 
+		if (pressed && code >= KEYD_CHORD_1 && code <= KEYD_CHORD_MAX)
+			kbd->active_chords[code - KEYD_CHORD_1].queued = 1;
+
 		ev = &kbd->pending_key.queue[kbd->pending_key.queue_sz];
 		ev->code = code;
 		ev->pressed = pressed;
@@ -1270,6 +1278,9 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 	int dl = -1;
 	struct descriptor d;
 
+	if (pressed && code >= KEYD_CHORD_1 && code <= KEYD_CHORD_MAX)
+		kbd->active_chords[code - KEYD_CHORD_1].queued = 0;
+
 	if (handle_chord(kbd, code, pressed, time))
 		goto exit;
 
@@ -1353,6 +1364,8 @@ static long process_events(struct keyboard *kbd, const struct key_event *events,
 	int timeout = 0;
 	int timeout_ts = 0;
 
+	kbd->replaying += queued;
+
 	while (i != n) {
 		const struct key_event *ev = &events[i];
 
@@ -1368,6 +1381,8 @@ static long process_events(struct keyboard *kbd, const struct key_event *events,
 		}
 	}
 
+	kbd->replaying -= queued;
+
 	return timeout;
 }
 
diff --git a/src/keyboard.h b/src/keyboard.h
index 0ba2ebb..8118c31 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -72,6 +72,9 @@ struct keyboard {
 
 	struct active_chord {
 		uint8_t active;
+
+		/* Set if the press is itself awaiting a pending decision. */
+		uint8_t queued;
 		struct chord chord;
 		int layer;
 	} active_chords[KEYD_CHORD_MAX-KEYD_CHORD_1+1];
@@ -124,6 +127,9 @@ struct keyboard {
 
 	uint8_t keystate[256];
 
+	/* Non zero while queued events are being processed. */
+	int replaying;
+
 	/* The keys which are physically down. */
 	uint8_t input_keystate[256];
 
-- 
2.43.0


From ff439e2f279ce1cb7acc075ceb4cb8a2f150933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 37/70] fix: do not miss the end of a chord struck among queued
 events

The key up events which follow the chord in the queue being processed belong to it,
even if the chord itself has been queued again by another decision.
---
 src/keyboard.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index aba4879..3b91608 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1185,9 +1185,6 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 				return 0;
 		}
 
-		if (pressed && code >= KEYD_CHORD_1 && code <= KEYD_CHORD_MAX)
-			kbd->active_chords[code - KEYD_CHORD_1].queued = 1;
-
 		ev = &kbd->pending_key.queue[kbd->pending_key.queue_sz];
 		ev->code = code;
 		ev->pressed = pressed;
@@ -1225,6 +1222,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		   allow for recursive pending key processing. */
 		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)+ARRAY_SIZE(kbd->chord.queue)+1];
 		size_t queue_sz = kbd->pending_key.queue_sz;
+		size_t i;
 
 		uint8_t code = kbd->pending_key.code;
 		int dl = kbd->pending_key.dl;
@@ -1253,6 +1251,10 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		});
 		process_descriptor(kbd, code, &action, dl, 1, time);
 
+		for (i = 0; i < queue_sz; i++)
+			if (queue[i].pressed && queue[i].code >= KEYD_CHORD_1 && queue[i].code <= KEYD_CHORD_MAX)
+				kbd->active_chords[queue[i].code - KEYD_CHORD_1].queued = 1;
+
 		/* Flush queued events */
 		process_events(kbd, queue, queue_sz, 1);
 
-- 
2.43.0


From 86d0ebfa243e4e27594a1db869d1dae15d7d7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 38/70] fix: do not let run time bindings alter a chord which
 is already being struck

If reset or a rebinding hit a chord awaiting its hold timeout the chord was
replaced under its hands, and an active chord without keys was never released.
---
 src/keyboard.c | 5 ++++-
 src/keyboard.h | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 3b91608..a307de6 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -378,7 +378,10 @@ static int check_chord_match(struct keyboard *kbd, const struct chord **chord, i
 			if (ret == 2 &&
 				maxts <= kbd->layer_state[idx].activation_time) {
 				*chord_layer = (int)idx;
-				*chord = &layer->chords[i];
+
+				/* The original may be rebound before the chord is resolved. */
+				kbd->chord.match_buf = layer->chords[i];
+				*chord = &kbd->chord.match_buf;
 
 				full_match = 1;
 				maxts = kbd->layer_state[idx].activation_time;
diff --git a/src/keyboard.h b/src/keyboard.h
index 8118c31..9fc3902 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -84,6 +84,7 @@ struct keyboard {
 		size_t queue_sz;
 
 		const struct chord *match;
+		struct chord match_buf;
 		int match_layer;
 
 		uint8_t start_code;
-- 
2.43.0


From c3e063d369b50803ca867aee0249b3eb9bc0bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 39/70] fix: do not let a reset alter the actions of the keys
 which are held

Bindings added after a reset reused the macros and descriptors held keys still
referred to, e.g. for the tap of an overload key or the repetition of a macro.
---
 src/keyboard.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index a307de6..c13efb0 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1396,10 +1396,39 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 	return process_events(kbd, events, n, 0);
 }
 
+/* Returns 1 if there is any action which may still refer to the auxiliary descriptors of the config. */
+static int is_busy(struct keyboard *kbd)
+{
+	size_t i;
+
+	for (i = 0; i < CACHE_SIZE; i++)
+		if (kbd->cache[i].code)
+			return 1;
+
+	return kbd->active_macro || kbd->pending_key.code || kbd->chord.state != CHORD_INACTIVE;
+}
+
+static void reset_bindings(struct keyboard *kbd)
+{
+	const struct config *orig = kbd->original_config;
+
+	memcpy(kbd->config.layers, orig->layers, sizeof orig->layers);
+
+	/*
+	 * Run time bindings append to these, and must not overwrite
+	 * anything a key which is still held depends on.
+	 */
+	if (!is_busy(kbd)) {
+		kbd->config.nr_macros = orig->nr_macros;
+		kbd->config.nr_descriptors = orig->nr_descriptors;
+		kbd->config.nr_commands = orig->nr_commands;
+	}
+}
+
 int kbd_eval(struct keyboard *kbd, const char *exp)
 {
 	if (!strcmp(exp, "reset")) {
-		memcpy(&kbd->config, kbd->original_config, sizeof(struct config));
+		reset_bindings(kbd);
 		return 0;
 	} else {
 		return config_add_entry(&kbd->config, exp);
-- 
2.43.0


From b1fede56e79075f728fe78b3d6825a8faf3f9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 40/70] fix: macro: do not treat the first supported character
 as unsupported

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index ad6f129..ceb3954 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -69,7 +69,7 @@ int macro_parse(char *s, struct macro *macro)
 							break;
 						}
 					}
-				} else if ((xcode = unicode_lookup_index(codepoint)) > 0)
+				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)
 					ADD_ENTRY(MACRO_UNICODE, xcode);
 
 				tok += chrsz;
-- 
2.43.0


From e392c9beb1d8634827ecd6fdba8e7d8884685997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 41/70] fix: do not let the clock wrap around after 24 days

---
 src/daemon.c   | 4 ++--
 src/evloop.c   | 2 +-
 src/keyboard.c | 2 +-
 src/keyboard.h | 2 +-
 src/keyd.h     | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..e4524ea 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -460,7 +460,7 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -476,7 +476,7 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 
 static int event_handler(struct event *ev)
 {
-	static int last_time = 0;
+	static long last_time = 0;
 	static int timeout = 0;
 	struct key_event kev = {0};
 
diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..b246b66 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -57,7 +57,7 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		int start_time;
+		long start_time;
 		int elapsed;
 
 		pfds[0].fd = monfd;
diff --git a/src/keyboard.c b/src/keyboard.c
index c13efb0..9183c75 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1367,7 +1367,7 @@ static long process_events(struct keyboard *kbd, const struct key_event *events,
 {
 	size_t i = 0;
 	int timeout = 0;
-	int timeout_ts = 0;
+	long timeout_ts = 0;
 
 	kbd->replaying += queued;
 
diff --git a/src/keyboard.h b/src/keyboard.h
index 9fc3902..7b3656e 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -27,7 +27,7 @@ struct cache_entry {
 struct key_event {
 	uint8_t code;
 	uint8_t pressed;
-	int timestamp;
+	long timestamp;
 };
 
 struct output {
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..2ab177b 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -66,7 +66,7 @@ struct event {
 	enum event_type type;
 	struct device *dev;
 	struct device_event *devev;
-	int timestamp;
+	long timestamp;
 	int fd;
 };
 
-- 
2.43.0


From 6688ade9e7bb7e8b0014d56e0f8cca9774c6b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 42/70] fix: do not end a oneshot before a key which is
 withheld by a chord

---
 src/keyboard.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 9183c75..b2a5f94 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1292,7 +1292,10 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 	if (handle_pending_key(kbd, code, pressed, time))
 		goto exit;
 
-	if (kbd->oneshot_timeout && time >= kbd->oneshot_timeout) {
+	/* A key which is withheld by an undecided chord was struck in time. */
+	if (kbd->oneshot_timeout && time >= kbd->oneshot_timeout &&
+	    kbd->chord.state != CHORD_PENDING_DISAMBIGUATION &&
+	    kbd->chord.state != CHORD_PENDING_HOLD_TIMEOUT) {
 		clear_oneshot(kbd);
 		update_mods(kbd, -1, 0);
 	}
-- 
2.43.0


From ea1523605c75565f753ced4a457a549061034c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 43/70] fix: do not mistake LED events for the keys of the
 panic sequence

---
 src/evloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index b246b66..9c79d48 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -103,7 +103,8 @@ int evloop(int (*event_handler) (struct event *ev))
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY)
+							panic_check(devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From 3bf6a2dc586ccb655bd64e32b305e0b4bfa1977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 44/70] fix: do not repeat the previous event when an unknown
 absolute axis moves

---
 src/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index b72c8a7..8704782 100644
--- a/src/device.c
+++ b/src/device.c
@@ -453,7 +453,7 @@ struct device_event *device_read_event(struct device *dev)
 			break;
 		default:
 			dbg("Unrecognized EV_ABS code: %x", ev.code);
-			break;
+			return NULL;
 		}
 
 		break;
-- 
2.43.0


From c40010a051d22bde96ac542239cafa855da62ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 45/70] fix: do not mistake the tools of a touchpad for keys

---
 src/device.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 8704782..28924e5 100644
--- a/src/device.c
+++ b/src/device.c
@@ -548,8 +548,9 @@ struct device_event *device_read_event(struct device *dev)
 				default:
 					if (!(ev.code >= BTN_DIGI && ev.code <= BTN_TOOL_QUADTAP)) {
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
-						return NULL;
 					}
+
+					return NULL;
 			}
 		}
 
-- 
2.43.0


From 8c6b0334e46987e46116c1b80d83cbd37141f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 46/70] fix: account for absolute axes which do not start at 0

---
 src/device.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index 28924e5..d0c9cab 100644
--- a/src/device.c
+++ b/src/device.c
@@ -441,13 +441,13 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
+			devev.x = ((uint32_t)ev.value - dev->_minx) * 1024 / (dev->_maxx - dev->_minx);
 			devev.y = 0;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
+			devev.y = ((uint32_t)ev.value - dev->_miny) * 1024 / (dev->_maxy - dev->_miny);
 			devev.x = 0;
 
 			break;
-- 
2.43.0


From 68f9c052512e5d6e69a2a9566dd6c5ac5fa2bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 47/70] fix: ignore excess devices instead of aborting

---
 src/device.c | 6 +++++-
 src/evloop.c | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index d0c9cab..0cf8ec6 100644
--- a/src/device.c
+++ b/src/device.c
@@ -226,7 +226,11 @@ int device_scan(struct device devices[MAX_DEVICES])
 
 	while((ent = readdir(dh))) {
 		if (ent->d_type != DT_DIR && !strncmp(ent->d_name, "event", 5)) {
-			assert(n < MAX_DEVICES);
+			if (n == MAX_DEVICES) {
+				keyd_log("ERROR: too many devices, ignoring %s\n", ent->d_name);
+				continue;
+			}
+
 			struct device_worker *w = &workers[n++];
 
 			snprintf(w->path, sizeof(w->path), "/dev/input/%s", ent->d_name);
diff --git a/src/evloop.c b/src/evloop.c
index 9c79d48..a3e3c01 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -132,7 +132,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz == MAX_DEVICES) {
+					keyd_log("ERROR: too many devices, ignoring %s\n", dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From d330884a628e22e2644221ea5df42d6db7b5682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 48/70] fix: close the devices which are removed

---
 src/device.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/device.c b/src/device.c
index 0cf8ec6..8c06c68 100644
--- a/src/device.c
+++ b/src/device.c
@@ -143,6 +143,7 @@ static int device_init(const char *path, struct device *dev)
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -151,6 +152,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -165,6 +167,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGID, &info) == -1) {
 			perror("ioctl EVIOCGID");
+			close(fd);
 			return -1;
 		}
 
@@ -396,6 +399,7 @@ struct device_event *device_read_event(struct device *dev)
 		if (errno == EAGAIN) {
 			return NULL;
 		} else {
+			close(dev->fd);
 			dev->fd = -1;
 			devev.type = DEV_REMOVED;
 			return &devev;
-- 
2.43.0


From 2d84a66e84f6ac477eea14c28344af8fefe34359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 49/70] fix: do not exit when the LEDs of a removed device are
 set

---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 8c06c68..01cbeda 100644
--- a/src/device.c
+++ b/src/device.c
@@ -592,5 +592,7 @@ void device_set_led(const struct device *dev, int led, int state)
 		.value = state
 	};
 
-	xwrite(dev->fd, &ev, sizeof ev);
+	/* The device may just have been removed. */
+	if (write(dev->fd, &ev, sizeof ev) < 0)
+		dbg("failed to set LED %d of %s", led, dev->path);
 }
-- 
2.43.0


From 5c7af01a0f60ada10bd477f5db8259ba985cb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 50/70] fix: uinput: advertise the voicecommand key

---
 src/vkbd/uinput.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index cb43c65..f856107 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -84,6 +84,11 @@ static int create_virtual_keyboard(const char *name)
 		exit(-1);
 	}
 
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND)) {
+		perror("ioctl set_keybit");
+		exit(-1);
+	}
+
 	udev.id.bustype = BUS_USB;
 	udev.id.vendor = 0x0FAC;
 	udev.id.product = 0x0ADE;
-- 
2.43.0


From 11424ef941b43e5c3ed61ef27b4a324791415dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 51/70] fix: scroll horizontally when the mouse is moved
 horizontally

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index e4524ea..2e837f9 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -526,7 +526,7 @@ static int event_handler(struct event *ev)
 					kbd->scroll.x %= kbd->scroll.sensitivity;
 
 					vkbd_mouse_scroll(vkbd, 0, -1*yticks);
-					vkbd_mouse_scroll(vkbd, 0, xticks);
+					vkbd_mouse_scroll(vkbd, xticks, 0);
 				} else {
 					vkbd_mouse_move(vkbd, ev->devev->x, ev->devev->y);
 				}
-- 
2.43.0


From ad4338a46bd59363cae04994a5034a327f800234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 52/70] fix: do not truncate the longest layer name when
 notifying listeners

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index 2e837f9..d437e2a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -135,7 +135,7 @@ fail:
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0


From ccbac9cdf13905f4b96645603b6d2a94afcf2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 53/70] fix: let absolute positions lie below the minimum of
 their axis

---
 src/device.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index 01cbeda..07bba99 100644
--- a/src/device.c
+++ b/src/device.c
@@ -449,13 +449,13 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.x = ((uint32_t)ev.value - dev->_minx) * 1024 / (dev->_maxx - dev->_minx);
+			devev.x = ((int64_t)ev.value - (int32_t)dev->_minx) * 1024 / (int32_t)(dev->_maxx - dev->_minx);
 			devev.y = 0;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.y = ((uint32_t)ev.value - dev->_miny) * 1024 / (dev->_maxy - dev->_miny);
+			devev.y = ((int64_t)ev.value - (int32_t)dev->_miny) * 1024 / (int32_t)(dev->_maxy - dev->_miny);
 			devev.x = 0;
 
 			break;
-- 
2.43.0


From 4167c4717ca110386a459a26d7958ddf592bd2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 54/70] fix: do not delay or lose timeouts because of the time
 spent in event handlers

---
 src/evloop.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/evloop.c b/src/evloop.c
index a3e3c01..c162e52 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -38,6 +38,7 @@ int evloop(int (*event_handler) (struct event *ev))
 {
 	size_t i;
 	int timeout = 0;
+	long deadline = 0;
 	int monfd;
 
 	struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];
@@ -50,6 +51,7 @@ int evloop(int (*event_handler) (struct event *ev))
 	for (i = 0; i < device_table_sz; i++) {
 		ev.type = EV_DEV_ADD;
 		ev.dev = &device_table[i];
+		ev.timestamp = get_time_ms();
 
 		event_handler(&ev);
 	}
@@ -57,9 +59,6 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		long start_time;
-		int elapsed;
-
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
 
@@ -73,18 +72,23 @@ int evloop(int (*event_handler) (struct event *ev))
 			pfds[i+device_table_sz+1].events = POLLIN | POLLERR;
 		}
 
-		start_time = get_time_ms();
-		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);
+		/* The last event handler may have taken a while. */
+		timeout = -1;
+		if (deadline) {
+			timeout = deadline - get_time_ms();
+			if (timeout < 0)
+				timeout = 0;
+		}
+
+		poll(pfds, device_table_sz+nr_aux_fds+1, timeout);
 		ev.timestamp = get_time_ms();
-		elapsed = ev.timestamp - start_time;
 
-		if (timeout > 0 && elapsed >= timeout) {
+		if (deadline && ev.timestamp >= deadline) {
 			ev.type = EV_TIMEOUT;
 			ev.dev = NULL;
 			ev.devev = NULL;
 			timeout = event_handler(&ev);
-		} else {
-			timeout -= elapsed;
+			deadline = timeout > 0 ? ev.timestamp + timeout : 0;
 		}
 
 		for (i = 0; i < device_table_sz; i++) {
@@ -97,6 +101,7 @@ int evloop(int (*event_handler) (struct event *ev))
 						ev.dev = &device_table[i];
 
 						timeout = event_handler(&ev);
+						deadline = timeout > 0 ? ev.timestamp + timeout : 0;
 
 						device_table[i].fd = -1;
 						removed = 1;
@@ -111,6 +116,7 @@ int evloop(int (*event_handler) (struct event *ev))
 						ev.dev = &device_table[i];
 
 						timeout = event_handler(&ev);
+						deadline = timeout > 0 ? ev.timestamp + timeout : 0;
 					}
 				}
 			}
@@ -124,6 +130,7 @@ int evloop(int (*event_handler) (struct event *ev))
 				ev.fd = aux_fds[i];
 
 				timeout = event_handler(&ev);
+				deadline = timeout > 0 ? ev.timestamp + timeout : 0;
 			}
 		}
 
@@ -144,6 +151,7 @@ int evloop(int (*event_handler) (struct event *ev))
 				ev.dev = &device_table[device_table_sz-1];
 
 				timeout = event_handler(&ev);
+				deadline = timeout > 0 ? ev.timestamp + timeout : 0;
 			}
 		}
 
-- 
2.43.0


From 79b8c3aa67d9b21e69386f46cb83ac5090708cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 55/70] fix: keep the timeouts of different keyboards apart

---
 src/daemon.c | 68 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index d437e2a..3819b9c 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -4,6 +4,9 @@ struct config_ent {
 	struct config config;
 	struct keyboard *kbd;
 	struct config_ent *next;
+
+	/* The time at which kbd wants to be woken up, 0 if it does not. */
+	long deadline;
 };
 
 static int ipcfd = -1;
@@ -460,40 +463,38 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
+static void process_event(struct keyboard *kbd, uint8_t code, uint8_t pressed, long timestamp)
 {
+	struct config_ent *ent;
 	struct key_event kev = {
 		.code = code,
-		.pressed = 1,
+		.pressed = pressed,
 		.timestamp = timestamp
 	};
 
-	kbd_process_events(kbd, &kev, 1);
+	long timeout = kbd_process_events(kbd, &kev, 1);
 
-	kev.pressed = 0;
-	return kbd_process_events(kbd, &kev, 1);
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->kbd == kbd)
+			ent->deadline = timeout > 0 ? timestamp + timeout : 0;
 }
 
-static int event_handler(struct event *ev)
+static void process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
-	static long last_time = 0;
-	static int timeout = 0;
-	struct key_event kev = {0};
-
-	timeout -= ev->timestamp - last_time;
-	last_time = ev->timestamp;
+	process_event(kbd, code, 1, timestamp);
+	process_event(kbd, code, 0, timestamp);
+}
 
-	timeout = timeout < 0 ? 0 : timeout;
+static int event_handler(struct event *ev)
+{
+	struct config_ent *ent;
+	long timeout = 0;
 
 	switch (ev->type) {
 	case EV_TIMEOUT:
-		if (!active_kbd)
-			return 0;
-
-		kev.code = 0;
-		kev.timestamp = ev->timestamp;
-
-		timeout = kbd_process_events(active_kbd, &kev, 1);
+		for (ent = configs; ent; ent = ent->next)
+			if (ent->deadline && ent->deadline <= ev->timestamp)
+				process_event(ent->kbd, 0, 0, ev->timestamp);
 		break;
 	case EV_DEV_EVENT:
 		if (ev->dev->data) {
@@ -504,11 +505,7 @@ static int event_handler(struct event *ev)
 			case DEV_KEY:
 				dbg("input %s %s", KEY_NAME(ev->devev->code), ev->devev->pressed ? "down" : "up");
 
-				kev.code = ev->devev->code;
-				kev.pressed = ev->devev->pressed;
-				kev.timestamp = ev->timestamp;
-
-				timeout = kbd_process_events(kbd, &kev, 1);
+				process_event(kbd, ev->devev->code, ev->devev->pressed, ev->timestamp);
 				break;
 			case DEV_MOUSE_MOVE:
 				if (kbd->scroll.active) {
@@ -538,16 +535,16 @@ static int event_handler(struct event *ev)
 				if (active_kbd) {
 					if (ev->devev->x > 0)
 						for (i = 0;i < (size_t)ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
 					if (ev->devev->x < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
 					if (ev->devev->y > 0)
 						for (i = 0;i < (size_t)ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
 					if (ev->devev->y < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
 				}
 				break;
 			default:
@@ -555,7 +552,7 @@ static int event_handler(struct event *ev)
 			}
 		} else if (!ev->dev->is_virtual && ev->dev->capabilities & CAP_MOUSE) {
 			if (active_kbd && (ev->devev->type == DEV_KEY || ev->devev->type == DEV_MOUSE_SCROLL))
-				timeout = process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
+				process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
 		} else if (ev->dev->is_virtual && ev->devev->type == DEV_LED) {
 			size_t i;
 
@@ -593,6 +590,17 @@ static int event_handler(struct event *ev)
 		break;
 	}
 
+	/* The delay until the first keyboard wants to be woken up. */
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->deadline) {
+			long n = ent->deadline - ev->timestamp;
+
+			if (n < 1)
+				n = 1;
+			if (!timeout || n < timeout)
+				timeout = n;
+		}
+
 	return timeout;
 }
 
-- 
2.43.0


From 881266b59e891cb06c52af5166053dd1417425ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 56/70] fix: forget the old keyboards on reload

---
 src/daemon.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index 3819b9c..dcfaabf 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -285,7 +285,22 @@ static void manage_device(struct device *dev)
 static void reload()
 {
 	size_t i;
+	struct config_ent *ent;
+
+	/* Listeners and LEDs should not be left with the state of the old layers. */
+	for (ent = configs; ent; ent = ent->next) {
+		struct keyboard *kbd = ent->kbd;
+
+		for (i = 1; i < kbd->config.nr_layers; i++)
+			if (kbd->layer_state[i].active) {
+				const struct layer *layer = &kbd->config.layers[i];
+
+				kbd->layer_state[i].active = 0;
+				on_layer_change(kbd, layer->type == LT_LAYOUT ? &kbd->config.layers[0] : layer, 0);
+			}
+	}
 
+	active_kbd = NULL;
 	free_configs();
 	load_configs();
 
-- 
2.43.0


From 4a250ac74523a64f20f556e00d5edcd87837d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 57/70] fix: send the state of the layers to the listeners
 which connect before the first key

---
 src/daemon.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index dcfaabf..96d179b 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -79,6 +79,7 @@ static void send_key(uint8_t code, uint8_t state)
 static void add_listener(int con)
 {
 	struct timeval tv;
+	struct keyboard *kbd = active_kbd;
 
 	/*
 	 * In order to avoid blocking the main event loop, allow up to 50ms for
@@ -97,13 +98,17 @@ static void add_listener(int con)
 
 	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
 
-	if (active_kbd) {
+	/* Nothing has been pressed yet, any keyboard will do. */
+	if (!active_kbd && configs)
+		kbd = configs->kbd;
+
+	if (kbd) {
 		size_t i;
-		struct config *config = &active_kbd->config;
+		struct config *config = &kbd->config;
 		struct layer *layout = &config->layers[0];
 
 		for (i = 1; i < config->nr_layers; i++)
-			if (active_kbd->layer_state[i].active) {
+			if (kbd->layer_state[i].active) {
 				struct layer *layer = &config->layers[i];
 
 				if (layer->type == LT_LAYOUT) {
@@ -115,7 +120,7 @@ static void add_listener(int con)
 		dprintf(con, "/%s\n", layout->name);
 
 		for (i = 1; i < config->nr_layers; i++) {
-			if (active_kbd->layer_state[i].active) {
+			if (kbd->layer_state[i].active) {
 				ssize_t ret;
 				struct layer *layer = &config->layers[i];
 
-- 
2.43.0


From 6dc9b2b644ce391c02685e1584c21f53bd990f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 58/70] fix: do not let a client block or stop the daemon

---
 src/daemon.c | 61 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 96d179b..0b31833 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -76,6 +76,47 @@ static void send_key(uint8_t code, uint8_t state)
 	}
 }
 
+/* Clients which are gone or do not read are none of our business. */
+static void send_message(int con, const void *buf, size_t sz)
+{
+	if (send(con, buf, sz, MSG_DONTWAIT | MSG_NOSIGNAL) < 0)
+		dbg("failed to answer client");
+}
+
+/*
+ * Returns 0 on success. Clients are given 50ms to send their message, in order
+ * to avoid blocking the main event loop.
+ */
+static int read_message(int con, struct ipc_message *msg)
+{
+	struct timespec ts;
+	long start;
+	size_t n = 0;
+
+	clock_gettime(CLOCK_MONOTONIC, &ts);
+	start = ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
+
+	while (n != sizeof *msg) {
+		struct pollfd pfd = { .fd = con, .events = POLLIN };
+		ssize_t ret;
+		long elapsed;
+
+		clock_gettime(CLOCK_MONOTONIC, &ts);
+		elapsed = ts.tv_sec * 1000 + ts.tv_nsec / 1000000 - start;
+
+		if (elapsed >= 50 || poll(&pfd, 1, 50 - elapsed) <= 0)
+			return -1;
+
+		ret = recv(con, (char *)msg + n, sizeof *msg - n, MSG_DONTWAIT);
+		if (ret <= 0)
+			return -1;
+
+		n += ret;
+	}
+
+	return 0;
+}
+
 static void add_listener(int con)
 {
 	struct timeval tv;
@@ -90,7 +131,7 @@ static void add_listener(int con)
 
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
-		xwrite(con, &s, sizeof s);
+		send_message(con, &s, sizeof s);
 
 		close(con);
 		return;
@@ -322,7 +363,7 @@ static void send_success(int con)
 	msg.type = IPC_SUCCESS;;
 	msg.sz = 0;
 
-	xwrite(con, &msg, sizeof msg);
+	send_message(con, &msg, sizeof msg);
 	close(con);
 }
 
@@ -336,7 +377,7 @@ static void send_fail(int con, const char *fmt, ...)
 	msg.type = IPC_FAIL;
 	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
 
-	xwrite(con, &msg, sizeof msg);
+	send_message(con, &msg, sizeof msg);
 	close(con);
 
 	va_end(args);
@@ -411,7 +452,11 @@ static void handle_client(int con)
 {
 	struct ipc_message msg;
 
-	xread(con, &msg, sizeof msg);
+	if (read_message(con, &msg)) {
+		keyd_log("ERROR: dropping a client which did not send a valid message\n");
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
@@ -598,12 +643,10 @@ static int event_handler(struct event *ev)
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
 			int con = accept(ipcfd, NULL, 0);
-			if (con < 0) {
+			if (con < 0)
 				perror("accept");
-				exit(-1);
-			}
-
-			handle_client(con);
+			else
+				handle_client(con);
 		}
 		break;
 	default:
-- 
2.43.0


From 76bb6b73583e733c96958912f41ba8a09e48f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 59/70] fix: do not wait forever for an answer which will never
 come

---
 src/util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.c b/src/util.c
index 8e35ec5..404a83b 100644
--- a/src/util.c
+++ b/src/util.c
@@ -25,6 +25,9 @@ void xread(int fd, void *buf, size_t sz)
 		if (n < 0) {
 			perror("read");
 			exit(-1);
+		} else if (n == 0) {
+			fprintf(stderr, "read: unexpected end of file\n");
+			exit(-1);
 		}
 		nrd += n;
 	}
-- 
2.43.0


From 699592a52b42415256f7ccc03f860149f8834149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 60/70] fix: usb-gadget: do not send uninitialised memory in
 the reserved byte

---
 src/vkbd/usb-gadget.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index 6b9853b..f5dd101 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -42,7 +42,7 @@ static int create_virtual_keyboard(void)
 static void send_hid_report(const struct vkbd *vkbd)
 {
 
-	struct hid_report report;
+	struct hid_report report = {0};
 
 	for (int i = 0; i < 6; i++)
 		report.hid_code[i] = keys[i];
-- 
2.43.0


From 0fa7c9dcfd99544ad73f4c1f6b34d54ed6fce4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 61/70] fix: application mapper: tolerate expressions before
 the first section

---
 scripts/keyd-application-mapper | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 91c4c93..cdd8564 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -62,6 +62,7 @@ def run_or_die(cmd, msg=''):
 
 def parse_config(path):
     config = []
+    bindings = [] # Collects anything which precedes the first section
 
     for line in open(path):
         line = line.strip()
-- 
2.43.0


From b961bc324ec07f6b6f9688072e24836e07b34648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 62/70] fix: application mapper: do not die on an app.conf
 which is not valid UTF-8

---
 scripts/keyd-application-mapper | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index cdd8564..a37c8cf 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -64,7 +64,7 @@ def parse_config(path):
     config = []
     bindings = [] # Collects anything which precedes the first section
 
-    for line in open(path):
+    for line in open(path, errors='surrogateescape'):
         line = line.strip()
 
         if line.startswith('[') and line.endswith(']'):
-- 
2.43.0


From e0d231515ae9a2b83c54c802f0b07ac4f96d426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 63/70] fix: application mapper: survive a missing app.conf
 when the focus changes

---
 scripts/keyd-application-mapper | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index a37c8cf..21212d6 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -538,12 +538,17 @@ def on_window_change(cls, title):
     cls = normalize_class(cls)
     title = normalize_title(title)
 
-    mtime = os.path.getmtime(CONFIG_PATH)
-
-    if mtime != last_mtime:
-        print(CONFIG_PATH + ': Updated, reloading config...')
-        config = parse_config(CONFIG_PATH)
-        last_mtime = mtime
+    # The file may be missing for a moment (e.g while an editor replaces
+    # it), keep the current config in that case.
+    try:
+        mtime = os.path.getmtime(CONFIG_PATH)
+
+        if mtime != last_mtime:
+            print(CONFIG_PATH + ': Updated, reloading config...')
+            config = parse_config(CONFIG_PATH)
+            last_mtime = mtime
+    except OSError as e:
+        print(f'Failed to reload {CONFIG_PATH}: {e}')
 
     if args.verbose:
         print(f'Active window: {cls}|{title}')
-- 
2.43.0


From 38682abc683a7279d693121f7d410e2a8060b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 64/70] fix: application mapper: survive a failure to run keyd

---
 scripts/keyd-application-mapper | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 21212d6..905c114 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -554,7 +554,10 @@ def on_window_change(cls, title):
         print(f'Active window: {cls}|{title}')
 
     bindings = lookup_bindings(cls, title)
-    subprocess.run(['keyd', 'bind', 'reset', *bindings], stdout=subprocess.DEVNULL)
+    try:
+        subprocess.run(['keyd', 'bind', 'reset', *bindings], stdout=subprocess.DEVNULL)
+    except (OSError, ValueError) as e:
+        print(f'Failed to run keyd: {e}')
 
 
 mon = get_monitor(on_window_change)
-- 
2.43.0


From 3235ab56006a916a2525167ba59589050a17b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 65/70] fix: application mapper: handle wayland messages which
 arrive in pieces

---
 scripts/keyd-application-mapper | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 905c114..2133d7f 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -195,13 +195,24 @@ class Wayland():
         self.sock.sendall(struct.pack(b'II', object_id, opcode))
         self.sock.sendall(payload)
 
+    # recv() may return less than what was asked for.
+    def recv_all(self, size):
+        data = b''
+        while len(data) < size:
+            chunk = self.sock.recv(size - len(data))
+            if not chunk:
+                raise EOFError('compositor closed the connection')
+            data += chunk
+
+        return data
+
     def recv_msg(self):
-        (object_id, evcode) = struct.unpack('II', self.sock.recv(8))
+        (object_id, evcode) = struct.unpack('II', self.recv_all(8))
 
         size = evcode >> 16
         evcode = evcode & 0xFFFF
 
-        data = self.sock.recv(size-8)
+        data = self.recv_all(size-8)
 
         return (object_id, evcode, data)
 
-- 
2.43.0


From b8c2246fb024f7439633ca9305b8f0683ce9ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 66/70] fix: application mapper: tolerate window titles which
 are not valid UTF-8

---
 scripts/keyd-application-mapper | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 2133d7f..53a3451 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -217,7 +217,7 @@ class Wayland():
         return (object_id, evcode, data)
 
     def read_string(self, b):
-        return b[4:4+struct.unpack('I', b[:4])[0]-1].decode('utf8')
+        return b[4:4+struct.unpack('I', b[:4])[0]-1].decode('utf8', 'replace')
 
     # Will bind the requested interface to object id 4
     def _bind_interface(self, name):
-- 
2.43.0


From 44cf0cabdc8e7cfe5cd140a1c94e90a8a064309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 67/70] fix: application mapper: do not confuse windows with
 the same class and title

---
 scripts/keyd-application-mapper | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 53a3451..99c1f51 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -270,7 +270,7 @@ class Wlroots():
                 windows[obj]['appid'] = self.wl.read_string(payload)
             elif event == 4:
                 # zwlr_foreign_toplevel_handle_v1::state event
-                if active_window == windows[obj]:
+                if active_window is windows[obj]:
                     active_window = None
                 window_is_active = False
 
@@ -285,13 +285,13 @@ class Wlroots():
 
                 if window_is_active:
                     active_window = windows[obj]
-            elif event == 5 and active_window == windows[obj]:
+            elif event == 5 and active_window is windows[obj]:
                 # zwlr_foreign_toplevel_handle_v1::done event
                 self.on_window_change(active_window['appid'], active_window['title'])
             elif event == 6:
                 # zwlr_foreign_toplevel_handle_v1::closed event
                 closed_window = windows.pop(obj)
-                if closed_window == active_window:
+                if closed_window is active_window:
                     active_window = None
 
 class Cosmic():
-- 
2.43.0


From e450badac10f8d8c174e58eefea67fa536d4908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 68/70] fix: application mapper: follow the focus and the title
 of cosmic windows

---
 scripts/keyd-application-mapper | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 99c1f51..ebc20a9 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -304,17 +304,40 @@ class Cosmic():
 
     def run(self):
         windows = {}
+        active_window = None
+
         while True:
             (obj, event, payload) = self.wl.recv_msg()
+            if obj == 4 and event == 0:
+                # zcosmic_toplevel_info_v1::toplevel event
+                windows[struct.unpack('I', payload)[0]] = {'title': '', 'appid': ''}
+                continue
+
             if obj not in windows:
-                windows[obj]={}
+                continue
 
-            if event == 2:
+            if event == 0:
+                # zcosmic_toplevel_handle_v1::closed event
+                if windows.pop(obj) is active_window:
+                    active_window = None
+            elif event == 1 and active_window is windows[obj]:
+                # zcosmic_toplevel_handle_v1::done event
+                self.on_window_change(active_window['appid'], active_window['title'])
+            elif event == 2:
+                # zcosmic_toplevel_handle_v1::title event
                 windows[obj]['title'] = self.wl.read_string(payload)
-            if event == 3:
+            elif event == 3:
+                # zcosmic_toplevel_handle_v1::app_id event
                 windows[obj]['appid'] = self.wl.read_string(payload)
-            if event == 8  and payload[0] > 0 and payload[4] == 2:
-                self.on_window_change(windows[obj].get('appid', ''), windows[obj].get('title', ''))
+            elif event == 8:
+                # zcosmic_toplevel_handle_v1::state event
+                states = struct.unpack(f'{len(payload) // 4}I', payload)[1:]
+
+                # zcosmic_toplevel_handle_v1::state enum -> activated
+                if 2 in states:
+                    active_window = windows[obj]
+                elif active_window is windows[obj]:
+                    active_window = None
 
 class XMonitor():
     def __init__(self, on_window_change):
-- 
2.43.0


From e8c63f9997ebea130437be53abe1e3f0c2c48a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 69/70] fix: application mapper: process every line of the
 gnome extension as it arrives

---
 scripts/keyd-application-mapper | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index ebc20a9..cc4ca63 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -478,24 +478,31 @@ NOTE:
             exit(0)
 
     def run(self):
-        fh = open(self.fifo_path)
+        # Opened for writing as well so that the extension going away isn't
+        # reported as an (endless) end of file.
+        fd = os.open(self.fifo_path, os.O_RDWR)
+        buf = b''
         last_cls = ''
         last_title = ''
 
-        for line in new_interruptible_generator(fh.fileno(), fh.readline, None):
-            if line == None:
+        for data in new_interruptible_generator(fd, lambda: os.read(fd, 4096), None):
+            if data == None:
                 self.on_window_change(last_cls, last_title)
                 continue
 
-            try:
-                (cls, title) = line.strip('\n').split('\t')
-                last_cls = cls
-                last_title = title
-            except:
-                cls = ''
-                title = ''
+            buf += data
+            *lines, buf = buf.split(b'\n')
 
-            self.on_window_change(cls, title)
+            for line in lines:
+                try:
+                    (cls, title) = line.decode('utf8', 'replace').split('\t', 1)
+                    last_cls = cls
+                    last_title = title
+                except ValueError:
+                    cls = ''
+                    title = ''
+
+                self.on_window_change(cls, title)
 
 def get_monitor(on_window_change):
     monitors = [
-- 
2.43.0


From 85e809f8da77e914e158d33a94d0ff065d020d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 70/70] fix: application mapper: reload on USR1 under wayland
 as well (instead of dying)

---
 scripts/keyd-application-mapper | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index cc4ca63..17869d3 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -252,8 +252,13 @@ class Wlroots():
         windows = {}
         active_window = None
 
-        while True:
-            (obj, event, payload) = self.wl.recv_msg()
+        for msg in new_interruptible_generator(self.wl.sock.fileno(), self.wl.recv_msg):
+            if msg == None:
+                if active_window != None:
+                    self.on_window_change(active_window['appid'], active_window['title'])
+                continue
+
+            (obj, event, payload) = msg
             if obj == 4 and event == 0:
                 # zwlr_foreign_toplevel_manager_v1::toplevel event
                 windows[struct.unpack('I', payload)[0]] = {'title': '', 'appid': ''}
@@ -306,8 +311,13 @@ class Cosmic():
         windows = {}
         active_window = None
 
-        while True:
-            (obj, event, payload) = self.wl.recv_msg()
+        for msg in new_interruptible_generator(self.wl.sock.fileno(), self.wl.recv_msg):
+            if msg == None:
+                if active_window != None:
+                    self.on_window_change(active_window['appid'], active_window['title'])
+                continue
+
+            (obj, event, payload) = msg
             if obj == 4 and event == 0:
                 # zcosmic_toplevel_info_v1::toplevel event
                 windows[struct.unpack('I', payload)[0]] = {'title': '', 'appid': ''}
-- 
2.43.0

