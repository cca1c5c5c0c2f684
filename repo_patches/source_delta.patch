From 05db316ce1f6c7ccf7d301152c917ee79b8a748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 01/33] fix: seat: return the existing entry when a device is
 opened again

Opening a device that the client already had open incremented the
reference count but failed with a stale errno. Entries that were revoked
in the meantime are not reused, as their file can no longer be used.
---
 seatd/seat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..34ea5c4 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -358,9 +358,9 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 	     elem = elem->next) {
 		struct seat_device *old_device = (struct seat_device *)elem;
 
-		if (strcmp(old_device->path, sanitized_path) == 0) {
+		if (old_device->active && strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From 7fee8bd7d4b465f41f187dc60ac0204c5aec468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 02/33] fix: seat: number sessions from 1

Session 0 cannot be the target of a session switch, as only positive
numbers are accepted.
---
 seatd/seat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 34ea5c4..9ca2e55 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -38,6 +38,7 @@ struct seat *seat_create(const char *seat_name, bool vt_bound) {
 	}
 	linked_list_init(&seat->clients);
 	seat->vt_bound = vt_bound;
+	seat->session_cnt = 1;
 	seat->seat_name = strdup(seat_name);
 	seat->cur_vt = 0;
 	if (seat->seat_name == NULL) {
-- 
2.43.0


From 8b27c279cb9d4ec032f9d79921a7e1f104ff680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 03/33] fix: seat: clean up the VT of the client that leaves

The VT to restore is the one of the departing client. The current VT is a
different one, or unknown (-1), if the client leaves while a VT switch
has not been acknowledged by it yet.
---
 seatd/seat.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 9ca2e55..74b2225 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -272,17 +272,10 @@ void seat_remove_client(struct client *client) {
 	}
 
 	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+		// No other client can be on the VT of this client, so clean it
+		// up.
+		log_debug("Closing VT");
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From b858823e12f8509d61104a8b1c5db053ed8b8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 04/33] fix: seat: never admit two clients on one VT

A disabled client waiting on the current VT was only considered if the
seat had an active client, so two clients could end up with the same
session.
---
 seatd/seat.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 74b2225..6b50e05 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -217,15 +217,13 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			errno = EINVAL;
 			return -1;
 		}
-		if (seat->active_client != NULL) {
-			for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
-			     elem = elem->next) {
-				struct client *client = (struct client *)elem;
-				if (client->session == seat->cur_vt) {
-					log_error("Could not add client: seat is VT-bound and already has pending client");
-					errno = EBUSY;
-					return -1;
-				}
+		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
+		     elem = elem->next) {
+			struct client *other = (struct client *)elem;
+			if (other->session == seat->cur_vt) {
+				log_error("Could not add client: seat is VT-bound and already has pending client");
+				errno = EBUSY;
+				return -1;
 			}
 		}
 		client->session = seat->cur_vt;
-- 
2.43.0


From f9bedd18e45030e11254060ae421cc3f019bc894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 05/33] fix: seat: put the VT of a waiting client under process
 control

A client that is admitted while another one still has to acknowledge its
disable has to wait. Until now its VT stayed in automatic mode, so no
signal was received when the user returned to it and it was never enabled.
---
 seatd/seat.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 6b50e05..a6a1a15 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -89,6 +89,16 @@ static int vt_open(int vt) {
 	return 0;
 }
 
+static void vt_control(int vt) {
+	int ttyfd = terminal_open(vt);
+	if (ttyfd == -1) {
+		log_errorf("Could not open terminal to control VT %d: %s", vt, strerror(errno));
+		return;
+	}
+	terminal_set_process_switching(ttyfd, true);
+	close(ttyfd);
+}
+
 static int vt_close(int vt) {
 	int ttyfd = terminal_open(vt);
 	if (ttyfd == -1) {
@@ -227,6 +237,7 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			}
 		}
 		client->session = seat->cur_vt;
+		vt_control(client->session);
 	} else {
 		client->session = seat->session_cnt++;
 	}
-- 
2.43.0


From 1dd6318d88c06a1ae963d94fa7186f5184ea6262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 06/33] fix: seat: keep track of the current VT if a release is
 not accepted

The kernel cancels a pending VT switch when the VT mode is set again, and
then rejects the acknowledgement. We stay on the current VT in that case,
and must be able to enable its client again.
---
 seatd/seat.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index a6a1a15..56e3c62 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -130,13 +130,9 @@ static int vt_ack(struct seat *seat, bool release) {
 		log_errorf("Could not open tty0 to ack VT signal: %s", strerror(errno));
 		return -1;
 	}
-	if (release) {
-		terminal_ack_release(tty0fd);
-	} else {
-		terminal_ack_acquire(tty0fd);
-	}
+	int ret = release ? terminal_ack_release(tty0fd) : terminal_ack_acquire(tty0fd);
 	close(tty0fd);
-	return 0;
+	return ret;
 }
 
 /*
@@ -739,7 +735,10 @@ int seat_vt_release(struct seat *seat) {
 		seat_disable_client(seat->active_client);
 	}
 
-	vt_ack(seat, true);
+	if (vt_ack(seat, true) == -1) {
+		// There is no switch to let through, so we are not leaving.
+		return -1;
+	}
 	seat->cur_vt = -1;
 	return 0;
 }
-- 
2.43.0


From 41a4a9c2cc51fdb36835ed7159c3083f3758e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 07/33] fix: seat: become DRM master again even if dropping it
 failed

Dropping fails if we were not DRM master, e.g. because another process
held it when the device was opened. The device was then considered active
and no attempt was made to become master when the client was re-enabled.
---
 seatd/seat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 56e3c62..719d9da 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -439,6 +439,7 @@ static int seat_deactivate_device(struct seat_device *seat_device) {
 	case SEAT_DEVICE_TYPE_DRM:
 		if (drm_drop_master(seat_device->fd) == -1) {
 			log_errorf("Could not revoke drm master on device fd: %s", strerror(errno));
+			seat_device->active = false;
 			return -1;
 		}
 		break;
-- 
2.43.0


From f900baed9a0c9b410a129abbe41e883dd1472d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 08/33] fix: terminal: refuse to open invalid VTs

The VT is -1 if it could not be determined, which is reported to the
callers as an error instead of failing an assertion.
---
 common/terminal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/terminal.c b/common/terminal.c
index 570cd7f..bb6c079 100644
--- a/common/terminal.c
+++ b/common/terminal.c
@@ -152,6 +152,10 @@ static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
 #endif
 
 int terminal_open(int vt) {
+	if (vt < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 	char path[TTYPATHLEN];
 	if (get_tty_path(vt, path) == -1) {
 		log_errorf("Could not generate tty path: %s", strerror(errno));
-- 
2.43.0


From 59270370bb12d0d5c2df975e694d43336c81ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 09/33] fix: client: do not lose events for slow clients

An event that could not be sent right away stayed in the buffer until the
client made a request, as nobody waited for the socket to become writable.
If it could not even be buffered it was lost. Wait for the socket in the
former case and disconnect the client in the latter.
---
 seatd/client.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..7604893 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -458,30 +458,27 @@ static int client_handle_opcode(struct client *client, uint16_t opcode, size_t s
 	return res;
 }
 
-int client_send_disable_seat(struct client *client) {
+static int client_send_event(struct client *client, uint16_t opcode) {
 	struct proto_header header = {
-		.opcode = SERVER_DISABLE_SEAT,
+		.opcode = opcode,
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
+		// The client has missed an event, so disconnect it.
+		shutdown(client->connection.fd, SHUT_RDWR);
 		return -1;
 	}
 	return 0;
 }
 
+int client_send_disable_seat(struct client *client) {
+	return client_send_event(client, SERVER_DISABLE_SEAT);
+}
+
 int client_send_enable_seat(struct client *client) {
-	struct proto_header header = {
-		.opcode = SERVER_ENABLE_SEAT,
-		.size = 0,
-	};
-	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
-		log_errorf("Could not send event: %s", strerror(errno));
-		return -1;
-	}
-	return 0;
+	return client_send_event(client, SERVER_ENABLE_SEAT);
 }
 
 int client_handle_connection(int fd, uint32_t mask, void *data) {
-- 
2.43.0


From a3deeb370056bd602a70cdd23dd0f3da6e2e9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 10/33] fix: connection: report end of file despite buffered
 data

If the peer shut down its side of the connection after an incomplete
message, connection_read kept returning the size of the buffered data,
which callers took for progress, resulting in a busy-loop.
---
 common/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..c7bdbb2 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -204,6 +204,10 @@ int connection_read(struct connection *connection) {
 			return -1;
 	} while (len == -1);
 
+	if (len == 0) {
+		return 0;
+	}
+
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
-- 
2.43.0


From 417c60a5cf6e9da5a275400914a4b81080e84a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 11/33] fix: poller: do not lose signals raised by their own
 callback

A signal arriving while its callback runs was discarded.
---
 seatd/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..a414eb4 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -287,8 +287,8 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From 24863d7f6b69af03f8a538364eedc113cca2f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 12/33] fix: poller: restore the default action of unused
 signals

The event source to be destroyed counted itself as another user.
---
 seatd/poller.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index a414eb4..6bd6849 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -178,6 +178,8 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	struct event_source_signal *bps = (struct event_source_signal *)event_source;
 	struct poller *poller = bps->poller;
 
+	bps->killed = true;
+
 	int refcnt = 0;
 	for (struct linked_list *elem = poller->signals.next; elem != &poller->signals;
 	     elem = elem->next) {
@@ -196,7 +198,6 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	}
 
 	poller->dirty = true;
-	bps->killed = true;
 	return 0;
 }
 
-- 
2.43.0


From 43cbd3da846e74fc149d053d27bbf4846fd7d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 13/33] fix: protocol: limit paths to what fits in the
 connection buffer

The largest paths made up messages that exceed the 256 byte buffer, which
ended the connection instead of failing the request.
---
 include/protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/protocol.h b/include/protocol.h
index c247149..52e9755 100644
--- a/include/protocol.h
+++ b/include/protocol.h
@@ -1,7 +1,7 @@
 #ifndef _SEATD_CONSTANTS_H
 #define _SEATD_CONSTANTS_H
 
-#define MAX_PATH_LEN     256
+#define MAX_PATH_LEN     250
 #define MAX_SEAT_LEN     64
 #define MAX_SEAT_DEVICES 128
 #define MAX_SESSION_LEN  64
-- 
2.43.0


From 3d8dc3dac11d7634c8d5cbf6ac9d5aa235332046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 14/33] fix: libseat: notice the end of the connection when not
 blocking

With a timeout of 0 an end of file was reported as having nothing to
dispatch, so applications polling the descriptor looped forever.
---
 libseat/backend/seatd.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..298157c 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -262,6 +262,21 @@ static int read_and_queue(struct backend_seatd *backend, int *opcode) {
 	return packets;
 }
 
+static int read_connection(struct backend_seatd *backend) {
+	int len = connection_read(&backend->connection);
+	if (len == 0) {
+		set_error(backend);
+		errno = EIO;
+		return -1;
+	} else if (len == -1 && errno != EAGAIN) {
+		int saved_errno = errno;
+		set_error(backend);
+		errno = saved_errno;
+		return -1;
+	}
+	return len;
+}
+
 static int poll_connection(struct backend_seatd *backend, int timeout) {
 	struct pollfd fd = {
 		.fd = backend->connection.fd,
@@ -280,15 +295,7 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 
 	int len = 0;
 	if (fd.revents & POLLIN) {
-		len = connection_read(&backend->connection);
-		if (len == 0) {
-			set_error(backend);
-			errno = EIO;
-			return -1;
-		} else if (len == -1 && errno != EAGAIN) {
-			set_error(backend);
-			return -1;
-		}
+		len = read_connection(backend);
 	}
 
 	return len;
@@ -339,7 +346,7 @@ static int dispatch(struct libseat *base, int timeout) {
 	// like to read anything pending.
 	int read = 0;
 	if (predispatch > 0 || timeout == 0) {
-		read = connection_read(&backend->connection);
+		read = read_connection(backend);
 	} else {
 		read = poll_connection(backend, timeout);
 	}
-- 
2.43.0


From d433ca81053e446cef07737a7f86de6c2aecb35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 15/33] fix: libseat: close the socket only once if opening the
 seat fails

The socket was closed again after the backend had been destroyed, by then
possibly hitting an unrelated descriptor of another thread.
---
 libseat/backend/seatd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 298157c..6a41def 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -431,6 +431,8 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 
 backend_error:
 	destroy(backend);
+	return NULL;
+
 alloc_error:
 	close(fd);
 	return NULL;
-- 
2.43.0


From 7e6ba855a6029abd7cabd80b06132f7581d1f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 16/33] fix: libseat: deliver events that follow the reply to
 opening the seat

The initial enable event is usually received together with the reply. It
then stayed in the buffer without the descriptor becoming readable.
---
 libseat/backend/seatd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 6a41def..77d87d2 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -327,6 +327,8 @@ static int get_fd(struct libseat *base) {
 	return backend->connection.fd;
 }
 
+static void check_pending_events(struct backend_seatd *backend);
+
 static int dispatch(struct libseat *base, int timeout) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
@@ -427,6 +429,7 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	}
 
 	execute_events(backend);
+	check_pending_events(backend);
 	return &backend->base;
 
 backend_error:
-- 
2.43.0


From aa161322261399c2bc9be109f61346e8bf27ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 17/33] fix: libseat: report the error code sent by the server

Looking for pending events overwrote errno with EAGAIN.
---
 libseat/backend/seatd.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 77d87d2..e344451 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -493,14 +493,15 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
+	int saved_errno = errno;
 	if (read_and_queue(backend, NULL) == -1) {
-		return;
+		goto out;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto out;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto out;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -509,9 +510,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto out;
 	}
 	backend->awaiting_pong = true;
+
+out:
+	errno = saved_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From f69e9bb8fe6868b89747c37f2c5260bf6c7bb1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 18/33] fix: libseat: deliver events in the order they were
 received

---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index e344451..ca8d3f0 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,7 +187,7 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
-- 
2.43.0


From 71242ef934d2db87f42646fea3ab99b59a0467b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 19/33] fix: noop: do not block in the dispatch that enables
 the seat

---
 libseat/backend/noop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 18f26c3..66a694a 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -86,6 +86,7 @@ static int dispatch_background(struct libseat *base, int timeout) {
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
+		return 1;
 	}
 
 	struct pollfd fd = {
-- 
2.43.0


From dc9719d8d832d3bccab9d16687796ff43c689eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 20/33] fix: logind: do not block in the dispatch that delivers
 the initial event

---
 libseat/backend/logind.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..67ed9c3 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -244,8 +244,10 @@ static int poll_connection(struct backend_logind *backend, int timeout) {
 
 static int dispatch_and_execute(struct libseat *base, int timeout) {
 	struct backend_logind *backend = backend_logind_from_libseat_backend(base);
+	int total_dispatched = 0;
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
+		total_dispatched++;
 		if (backend->active) {
 			backend->seat_listener->enable_seat(&backend->base,
 							    backend->seat_listener_data);
@@ -255,7 +257,6 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 		}
 	}
 
-	int total_dispatched = 0;
 	int dispatched = 0;
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
-- 
2.43.0


From a279860e4db2a23d656b525fdfe362d122a89531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 21/33] fix: logind: read D-Bus booleans into integers

sd-bus stores them as int, which overflowed the bool variables.
---
 libseat/backend/logind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 67ed9c3..9cb5beb 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -281,11 +281,14 @@ static const char *seat_name(struct libseat *base) {
 
 static int session_get_active(struct backend_logind *session, bool *active) {
 	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int value = 0;
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value;
 	}
 
 	sd_bus_error_free(&error);
@@ -435,7 +438,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value;
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -480,7 +483,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value;
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From 646642390920e3470fe29b238c00c1c5a33ef11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 22/33] fix: logind: do not leak the reply to
 PauseDeviceComplete

---
 libseat/backend/logind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 9cb5beb..db83432 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -392,7 +392,7 @@ static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error
 		set_active(session, false);
 		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
 					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
-					 ret_error, &msg, "uu", major, minor);
+					 ret_error, NULL, "uu", major, minor);
 		if (ret < 0) {
 			log_errorf("Could not send PauseDeviceComplete signal: %s",
 				   ret_error->message);
-- 
2.43.0


From 18cea6d6c7e7a2d1a378dc644be3a7da3cc4a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 23/33] fix: report the error of a failed dup, not that of
 closing the device

---
 seatd/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seatd/client.c b/seatd/client.c
index 7604893..21ee495 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -232,8 +232,10 @@ static int handle_open_device(struct client *client, char *path) {
 
 	int dupfd = dup(device->fd);
 	if (dupfd == -1) {
+		int saved_errno = errno;
 		log_errorf("Could not dup fd: %s", strerror(errno));
 		seat_close_device(client, device);
+		errno = saved_errno;
 		goto fail;
 	}
 
-- 
2.43.0


From a2bdb8c79340a1ce880cabcf20ecf7e9d313700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 24/33] fix: libseat: set errno when a call on a lost seat
 fails

---
 libseat/backend/seatd.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index ca8d3f0..d97b675 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -324,6 +324,10 @@ static int read_until_response(struct backend_seatd *backend) {
 
 static int get_fd(struct libseat *base) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
+	if (backend->error) {
+		errno = ENOTCONN;
+		return -1;
+	}
 	return backend->connection.fd;
 }
 
@@ -454,6 +458,7 @@ static int close_seat(struct libseat *base) {
 	int res = 0;
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
+		errno = ENOTCONN;
 		res = -1;
 		goto done;
 	}
@@ -464,15 +469,18 @@ static int close_seat(struct libseat *base) {
 	};
 	if (conn_put(backend, &header, sizeof header) == -1 || read_until_response(backend) == -1) {
 		res = -1;
+		goto done;
 	}
 
 	if (read_header(backend, SERVER_SEAT_CLOSED, 0, false) == SIZE_MAX) {
 		res = -1;
 	}
 
-done:
+done:;
+	int saved_errno = errno;
 	execute_events(backend);
 	destroy(backend);
+	errno = saved_errno;
 	return res;
 }
 
-- 
2.43.0


From b451afc791e381fc1cf787745a2817ba0f7a9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 25/33] fix: noop: set errno when refusing to switch session

---
 libseat/backend/noop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 66a694a..378bcd5 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -72,6 +72,7 @@ static int switch_session(struct libseat *base, int s) {
 	(void)base;
 	(void)s;
 	log_errorf("No-op backend cannot switch to session %d", s);
+	errno = ENOSYS;
 	return -1;
 }
 
-- 
2.43.0


From df89d89e24a9d15f55b815036429bf1a2a28d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 26/33] fix: libseat: do not wait for more after a reply with
 opcode 0

---
 libseat/backend/seatd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index d97b675..3660779 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -306,12 +306,12 @@ static int read_until_response(struct backend_seatd *backend) {
 		return -1;
 	}
 	while (true) {
-		int opcode = 0;
+		int opcode = -1;
 		if (read_and_queue(backend, &opcode) == -1) {
 			log_errorf("Could not dispatch pending messages: %s", strerror(errno));
 			return -1;
 		}
-		if (opcode != 0) {
+		if (opcode != -1) {
 			break;
 		}
 		if (poll_connection(backend, -1) == -1) {
-- 
2.43.0


From 24d4ee7f8f6a2d9bfbd5f30b51b47a725e82b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 27/33] fix: reset an inherited SIGCHLD disposition in
 seatd-launch

With SIGCHLD ignored by the parent, children are reaped automatically:
the death of seatd before it is ready goes unnoticed, and the command's
exit status is lost.
---
 seatd-launch/seatd-launch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 65d4f33..c01b3e6 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -46,6 +46,9 @@ int main(int argc, char *argv[]) {
 	}
 	char **command = &argv[optind];
 
+	// We wait for our children, even if our parent ignored SIGCHLD
+	signal(SIGCHLD, SIG_DFL);
+
 	int readiness_pipe[2];
 	if (pipe(readiness_pipe) == -1) {
 		perror("Could not create pipe");
-- 
2.43.0


From b7de2dc56b28d96eb364dee72d371b5e2286e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 28/33] fix: logind: set errno when a request fails

---
 libseat/backend/logind.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index db83432..0c98aa9 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -106,7 +106,7 @@ static void check_pending_events(struct backend_logind *backend) {
 static int open_device(struct libseat *base, const char *path, int *fd) {
 	struct backend_logind *session = backend_logind_from_libseat_backend(base);
 
-	int ret;
+	int ret, err = 0;
 	int tmpfd = -1;
 	sd_bus_message *msg = NULL;
 	sd_bus_error error = SD_BUS_ERROR_NULL;
@@ -122,7 +122,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 				 major(st.st_rdev), minor(st.st_rdev));
 	if (ret < 0) {
 		log_errorf("Could not take device: %s", error.message);
-		tmpfd = -1;
+		err = -ret;
 		goto out;
 	}
 
@@ -130,6 +130,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	ret = sd_bus_message_read(msg, "hb", &tmpfd, &paused);
 	if (ret < 0) {
 		log_errorf("Could not parse D-Bus response: %s", strerror(-ret));
+		err = -ret;
 		tmpfd = -1;
 		goto out;
 	}
@@ -138,7 +139,8 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	// so we just clone it.
 	tmpfd = fcntl(tmpfd, F_DUPFD_CLOEXEC, 0);
 	if (tmpfd < 0) {
-		log_errorf("Could not duplicate fd: %s", strerror(errno));
+		err = errno;
+		log_errorf("Could not duplicate fd: %s", strerror(err));
 		tmpfd = -1;
 		goto out;
 	}
@@ -149,6 +151,9 @@ out:
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
+	if (tmpfd < 0) {
+		errno = err;
+	}
 	return tmpfd;
 }
 
@@ -179,7 +184,11 @@ static int close_device(struct libseat *base, int device_id) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int switch_session(struct libseat *base, int s) {
@@ -202,7 +211,11 @@ static int switch_session(struct libseat *base, int s) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int disable_seat(struct libseat *base) {
-- 
2.43.0


From 89f0247f30e70a96c575c5a1dc14c1359d4def3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 29/33] fix: logind: report the end of the bus connection from
 dispatch

---
 libseat/backend/logind.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 0c98aa9..0db0d0c 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -274,7 +274,7 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
-	if (total_dispatched == 0 && timeout != 0) {
+	if (dispatched == 0 && total_dispatched == 0 && timeout != 0) {
 		if (poll_connection(backend, timeout) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
 			return -1;
@@ -283,6 +283,11 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			total_dispatched += dispatched;
 		}
 	}
+	if (dispatched < 0) {
+		log_errorf("Could not process events: %s", strerror(-dispatched));
+		errno = -dispatched;
+		return -1;
+	}
 	check_pending_events(backend);
 	return total_dispatched;
 }
-- 
2.43.0


From f73f9d09986bec6fd0767202179c703b7f76a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 30/33] fix: unblock signals when a handler is added for them

---
 seatd/poller.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seatd/poller.c b/seatd/poller.c
index 6bd6849..3f58e5c 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -171,6 +171,12 @@ struct event_source_signal *poller_add_signal(struct poller *poller, int signal,
 
 	linked_list_insert(&poller->signals, &bps->link);
 
+	// The signal may have been blocked by whoever started us
+	sigset_t set;
+	sigemptyset(&set);
+	sigaddset(&set, signal);
+	sigprocmask(SIG_UNBLOCK, &set, NULL);
+
 	return (struct event_source_signal *)bps;
 }
 
-- 
2.43.0


From 9f6322775e07b75595a5095813e68711f2805977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:14 +0000
Subject: [PATCH 31/33] fix: libseat: refuse events and pongs that have a body

Their body was taken for further messages.
---
 libseat/backend/seatd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 3660779..78fe5a6 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -227,6 +227,14 @@ static int read_and_queue(struct backend_seatd *backend, int *opcode) {
 	struct proto_header header;
 	while (connection_get(&backend->connection, &header, sizeof header) != -1) {
 		packets++;
+		if (header.size != 0 &&
+		    (header.opcode == SERVER_PONG || header.opcode == SERVER_DISABLE_SEAT ||
+		     header.opcode == SERVER_ENABLE_SEAT)) {
+			log_errorf("Invalid message: background event with size %d", header.size);
+			set_error(backend);
+			errno = EBADMSG;
+			return -1;
+		}
 		switch (header.opcode) {
 		case SERVER_PONG:
 			// We care about whether or not the answer has been
-- 
2.43.0


From 44105403c3ed9e5ea92eb72f74c4dc22fb22441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:01 +0000
Subject: [PATCH 32/33] fix: refuse a client whose VT cannot be determined

When tty0 could not be opened, the client was admitted on the VT that
had been in the foreground some time before.
---
 seatd/seat.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 719d9da..1b86adf 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -65,14 +65,15 @@ void seat_destroy(struct seat *seat) {
 	free(seat);
 }
 
-static void seat_update_vt(struct seat *seat) {
+static int seat_update_vt(struct seat *seat) {
 	int tty0fd = terminal_open(0);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to update VT: %s", strerror(errno));
-		return;
+		return -1;
 	}
 	seat->cur_vt = terminal_current_vt(tty0fd);
 	close(tty0fd);
+	return 0;
 }
 
 static int vt_open(int vt) {
@@ -217,8 +218,7 @@ int seat_add_client(struct seat *seat, struct client *client) {
 	}
 
 	if (seat->vt_bound) {
-		seat_update_vt(seat);
-		if (seat->cur_vt == -1) {
+		if (seat_update_vt(seat) == -1 || seat->cur_vt == -1) {
 			log_error("Could not determine VT for client");
 			errno = EINVAL;
 			return -1;
-- 
2.43.0


From 90be3b24d2928310b74b3c4f257d206d8331bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:01 +0000
Subject: [PATCH 33/33] fix: libseat: give up the connection when waiting for a
 response fails

The late response was taken for the response to the next request.
---
 libseat/backend/seatd.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 78fe5a6..ba6ea6f 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -292,7 +292,15 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 	};
 
 	if (poll(&fd, 1, timeout) == -1) {
-		return (errno == EAGAIN || errno == EINTR) ? 0 : -1;
+		if (errno == EAGAIN || errno == EINTR) {
+			return 0;
+		}
+		// The response could no longer be told from that to a later
+		// request.
+		int saved_errno = errno;
+		set_error(backend);
+		errno = saved_errno;
+		return -1;
 	}
 
 	if (fd.revents & (POLLERR | POLLHUP)) {
-- 
2.43.0

