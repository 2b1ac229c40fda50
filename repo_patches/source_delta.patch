From 0feb063bbcef5ae10705271158508a8d136b495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 01/22] fix: dealer accepts an invocation ERROR only from the
 invoked callee

Any session could answer a foreign pending invocation with an ERROR, because
only YIELD compared the sender with the callee. The terminal ERROR also left
the call-to-invocation entry behind, so a later progressive chunk of the same
call was sent out under a dead invocation id.
---
 wampproto/dealer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..65efca3 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -180,10 +180,16 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"dealer: received unexpected error from session={session_id}")
+
+            del self.pending_calls[message.request_id]
+            del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 73f55a8550cd06a5dbf05b44e2db413628f67cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:50 +0000
Subject: [PATCH 02/22] fix: dealer keeps all chunks of a progressive call on
 one invocation

The final (non-progress) chunk was given a second invocation id, and a chunk
that arrived after the procedure changed hands, or was unregistered, went to
the new holder or was refused. Answering both invocations then raised KeyError
and lost the answer. Chunks now follow the open invocation, and a request id
that is still pending cannot be used for another call.
---
 wampproto/dealer.py | 68 +++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 65efca3..5521f0a 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -11,6 +11,7 @@ class PendingInvocation:
     request_id: int
     caller_id: int
     callee_id: int
+    registration_id: int
     progress: bool
     receive_progress: bool
 
@@ -59,35 +60,60 @@ class Dealer:
         return procedure in self.registrations_by_procedure
 
     def _add_call(
-        self, call_id: int, invocation_id: int, caller_id: int, callee_id: int, progress: bool, receive_progress: bool
+        self,
+        call_id: int,
+        invocation_id: int,
+        caller_id: int,
+        callee_id: int,
+        registration_id: int,
+        progress: bool,
+        receive_progress: bool,
     ) -> None:
-        self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
+        self.pending_calls[invocation_id] = PendingInvocation(
+            call_id, caller_id, callee_id, registration_id, progress, receive_progress
+        )
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
-            registration = self.registrations_by_procedure.get(message.procedure)
-            if registration is None:
-                err = messages.Error(
-                    messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
-                )
-                return types.MessageWithRecipient(err, session_id)
-
-            callee_id: int = 0
-            for session in registration.registrants.keys():
-                callee_id = session
-                break
-
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            if invocation_id is not None:
+                # the next chunk of a progressive call belongs to the invocation that is already open,
+                # whoever holds the registration by now.
+                pending = self.pending_calls[invocation_id]
+                if not pending.progress:
+                    raise ValueError(f"cannot call, request {message.request_id} is already pending")
+
+                callee_id = pending.callee_id
+                registration_id = pending.registration_id
+                pending.progress = progress
             else:
+                registration = self.registrations_by_procedure.get(message.procedure)
+                if registration is None:
+                    err = messages.Error(
+                        messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
+                    )
+                    return types.MessageWithRecipient(err, session_id)
+
+                callee_id: int = 0
+                for session in registration.registrants.keys():
+                    callee_id = session
+                    break
+
+                registration_id = registration.id
                 invocation_id = self.idgen.next()
-                self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+                self._add_call(
+                    message.request_id,
+                    invocation_id,
+                    session_id,
+                    callee_id,
+                    registration_id,
+                    progress,
+                    receive_progress,
+                )
 
             details = {}
             if receive_progress:
@@ -99,7 +125,7 @@ class Dealer:
             invocation = messages.Invocation(
                 messages.InvocationFields(
                     request_id=invocation_id,
-                    registration_id=registration.id,
+                    registration_id=registration_id,
                     args=message.args,
                     kwargs=message.kwargs,
                     details=details,
-- 
2.43.0


From 56d22895757371bffbaf0844e5fd8e298d766eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 03/22] fix: dealer refuses a CALL from a session it does not
 know

Every other request is refused for an unknown session. A CALL that was still
queued when its session left opened an invocation whose result was addressed
to nobody.
---
 wampproto/dealer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 5521f0a..e5594a5 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -76,6 +76,9 @@ class Dealer:
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
+            if session_id not in self.registrations_by_session:
+                raise ValueError(f"cannot call, session {session_id} doesn't exist")
+
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
 
-- 
2.43.0


From 72229a70d4fce040efe2de26d1e9a650be9f3b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 04/22] fix: dealer settles the pending calls of a session that
 leaves

Pending invocations outlived both their caller and their callee: the caller of
a departed callee never got an answer, results were addressed to departed
callers (or to a later session with the same id), and the entries were never
freed. remove_session now drops them and returns the errors for the callers.
---
 wampproto/dealer.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index e5594a5..4f0b302 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -41,7 +41,7 @@ class Dealer:
         self.registrations_by_session[details.session_id] = {}
         self.sessions[details.session_id] = details
 
-    def remove_session(self, sid: int):
+    def remove_session(self, sid: int) -> list[types.MessageWithRecipient]:
         if sid not in self.registrations_by_session:
             raise ValueError("cannot remove non-existing session")
 
@@ -56,6 +56,23 @@ class Dealer:
 
         del self.sessions[sid]
 
+        # calls of the departed session need no answer anymore, calls it was executing will never get one:
+        # the errors returned here are to be sent to their callers.
+        canceled: list[types.MessageWithRecipient] = []
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid != pending.caller_id and sid != pending.callee_id:
+                continue
+
+            del self.pending_calls[invocation_id]
+            del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+            if sid != pending.caller_id:
+                err = messages.Error(
+                    messages.ErrorFields(messages.Call.TYPE, pending.request_id, "wamp.error.canceled")
+                )
+                canceled.append(types.MessageWithRecipient(err, pending.caller_id))
+
+        return canceled
+
     def has_registration(self, procedure: str) -> bool:
         return procedure in self.registrations_by_procedure
 
-- 
2.43.0


From ff17411dbd9752ad982e92df240c4765de628394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 05/22] fix: dealer passes the opaque payload on in both
 directions

An invocation lost the binary flag of the CALL's payload, and a RESULT lost
the payload of the YIELD altogether.
---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4f0b302..a1526cf 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -151,6 +151,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -174,7 +175,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From a4b30159ec092fc5ccb222d09c6663af576f893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 06/22] fix: session supports progressive call results and
 invocations

The first progressive RESULT closed the call and the first progressive YIELD
closed the invocation, so the second one of either was refused.
---
 wampproto/session.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..f37bd93 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,9 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            # a progressive result leaves the invocation open
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
@@ -54,10 +56,12 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            # a progressive result leaves the call open
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
@@ -76,7 +80,8 @@ class WAMPSession:
             except KeyError:
                 raise ValueError("received UNREGISTERED for invalid registration_id")
         elif isinstance(msg, messages.Invocation):
-            if msg.registration_id not in self._registrations:
+            # an invocation that is already open may go on after its procedure was unregistered
+            if msg.registration_id not in self._registrations and msg.request_id not in self._invocation_requests:
                 raise ValueError("received INVOCATION for invalid registration_id")
 
             self._invocation_requests.add(msg.request_id)
-- 
2.43.0


From 9f552926440d547aaae6434af027555493eeab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 07/22] fix: session records a request only once its message is
 serialized

A YIELD whose arguments could not be serialized closed the invocation without
sending anything, and the corrected YIELD was then refused; failed requests
stayed outstanding forever.
---
 wampproto/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index f37bd93..240d186 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,9 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        # serialized first, so that a message that cannot be serialized leaves no trace in the session
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -48,7 +51,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
-- 
2.43.0


From aa2795ca110c3ff817bd4cac1f3862d2afca5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 08/22] fix: acceptor is aborted after it sent an ABORT

When the authenticator refused, an ABORT was returned but the handshake stayed
open: is_aborted() was false and further HELLO or AUTHENTICATE messages were
processed, so a ticket could be guessed without limit on one connection.
---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..33492c6 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -119,6 +121,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -187,6 +190,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From 1235366fcdcb9ecb8d89713df0f4be74c7efa690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 09/22] fix: acceptor verifies that a cryptosign signature
 signs its own challenge

Only the message embedded in the signature was verified, never that it is the
challenge of this handshake: any signature once captured from a client could
be replayed to log in as that client.
---
 wampproto/acceptor.py        | 5 ++++-
 wampproto/auth/cryptosign.py | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 33492c6..23b72e9 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -114,6 +114,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -148,7 +149,9 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    if not auth.verify_cryptosign_signature(
+                        msg.signature, binascii.unhexlify(self._public_key), self._challenge
+                    ):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..24b6bdb 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -40,14 +40,15 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
     return private_key.sign(raw_challenge, HexEncoder).signature.decode() + challenge
 
 
-def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
+def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
-        verifying_key.verify(binascii.unhexlify(signature))
+        signed_message = verifying_key.verify(binascii.unhexlify(signature))
     except BadSignatureError:
         return False
 
-    return True
+    # the signature carries the message it signs, which has to be the challenge that was sent.
+    return challenge is None or signed_message == binascii.unhexlify(challenge)
 
 
 def generate_cryptosign_keypair() -> tuple[str, str]:
-- 
2.43.0


From 8e6231b44b997dc3739ee99725d6ae188cd0ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 10/22] fix: acceptor handles a client ABORT and refuses
 unexpected messages

receive() tried to serialize None and raised AttributeError for an ABORT and
for every message that is not part of the handshake, and a cryptosign HELLO
without authextra raised AttributeError as well.
---
 wampproto/acceptor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 23b72e9..0bac689 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -44,9 +44,12 @@ class Acceptor:
         self._challenge: str = None
         self._secret: str = None
 
-    def receive(self, data: bytes) -> (bytes, bool):
+    def receive(self, data: bytes) -> (bytes | None, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            # the client aborted: there is nothing to send and nothing more to expect.
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
@@ -99,7 +102,7 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
+                    public_key = (msg.authextra or {}).get("pubkey")
                     if public_key is None:
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
@@ -209,6 +212,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unknown message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From 7d3cf1040a13ec465cbe615b853b4a7bfa797ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 11/22] fix: ABORT carries its args and kwargs

They were parsed but never sent, so a client was not told why it was refused.
The acceptor sends the authenticator's error as text, which every serializer
can encode.
---
 wampproto/acceptor.py       | 16 ++++++++++++----
 wampproto/messages/abort.py | 12 +++++++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 0bac689..8137b5d 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -87,7 +87,9 @@ class Acceptor:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(a) for a in e.args])
+                        )
 
                     self._state = Acceptor.STATE_WELCOME_SENT
 
@@ -111,7 +113,9 @@ class Acceptor:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(a) for a in e.args])
+                        )
 
                     self._public_key = public_key
 
@@ -126,7 +130,9 @@ class Acceptor:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(a) for a in e.args])
+                        )
 
                     if not isinstance(response, auth.WAMPCRAResponse):
                         raise ValueError("invalid response type for WAMPCRA")
@@ -197,7 +203,9 @@ class Acceptor:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(a) for a in e.args])
+                        )
 
                     self._state = Acceptor.STATE_WELCOME_SENT
                     welcome = messages.Welcome(
diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From d03eb1aac87592b7fea01d6be2d96541ba212b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 12/22] fix: authentication challenges come from the system's
 secure random source

They came from the module-wide Mersenne Twister: an application that calls
random.seed() made challenges repeat, so that a captured answer could be
replayed, and the generator can be predicted from its earlier output.
---
 wampproto/auth/cryptosign.py | 4 ++--
 wampproto/auth/wampcra.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 24b6bdb..0972808 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -1,5 +1,5 @@
 import binascii
-import random
+import secrets
 
 import nacl.signing
 from nacl.encoding import HexEncoder
@@ -31,7 +31,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
 
 def generate_cryptosign_challenge() -> str:
-    raw_bytes = random.randbytes(32)
+    raw_bytes = secrets.token_bytes(32)
     return binascii.hexlify(raw_bytes).decode("ascii")
 
 
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..a0fa546 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -4,7 +4,7 @@ import datetime
 import hashlib
 import hmac
 import json
-import random
+import secrets
 
 from wampproto import messages, auth
 from wampproto.messages.authenticate import AuthenticateFields
@@ -52,7 +52,7 @@ def utcnow() -> str:
 
 
 def generate_wampcra_challenge(session_id: int, authid: str, authrole: str, provider: str) -> str:
-    nonce = binascii.hexlify(random.randbytes(16)).decode()
+    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
 
     data = {
         "nonce": nonce,
-- 
2.43.0


From 7279f4eba1d55d9fd4bbece271c150f2aec25157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 13/22] fix: client authenticators do not share the caller's
 auth_extra

The cryptosign authenticator stores its public key in auth_extra: two clients
built with the same dict both announced the first one's key, and the second
could never log in.
---
 wampproto/auth/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..cee42c4 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -6,7 +6,7 @@ class IClientAuthenticator:
         super().__init__()
         self._method = method
         self._authid = authid
-        self._auth_extra = auth_extra if auth_extra is not None else {}
+        self._auth_extra = dict(auth_extra) if auth_extra is not None else {}
 
     @property
     def auth_method(self) -> str:
-- 
2.43.0


From 9162a32d9e05c4dcf9b4d3edf7e43f698324773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 14/22] fix: rawsocket handshake with any non-zero reserved
 byte is refused

It was refused only when both were non-zero.
---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From f341a99296f70208238dc46626ce85d9ff8c33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 15/22] fix: rawsocket header refuses a length that does not
 fit in 24 bits

A message of 2**24 bytes was announced with length 0, so the receiver read
its content as frame headers.
---
 wampproto/transports/rawsocket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..849096e 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -51,6 +51,10 @@ class MessageHeader:
         return self._length
 
     def to_bytes(self) -> bytes:
+        # the length has 24 bits: one that does not fit would be announced as a shorter one
+        if self._length < 0 or self._length >= PROTOCOL_MAX_MSG_SIZE:
+            raise ValueError(f"message length must be less than {PROTOCOL_MAX_MSG_SIZE}, got {self._length}")
+
         data = int_to_bytes(self._length)
         return bytes(
             [
-- 
2.43.0


From 416db4d59920fde3656264e1e628d0fd01d9913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:00 +0000
Subject: [PATCH 16/22] fix: acceptor sends the salting parameters of a salted
 WAMP-CRA secret

The client was never told to derive its key, so nobody could log in against a
salted secret, and reading the response's salt recursed without end.
---
 wampproto/acceptor.py      | 7 ++++++-
 wampproto/auth/__init__.py | 2 ++
 wampproto/auth/auth.py     | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 8137b5d..ad989dc 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -146,7 +146,12 @@ class Acceptor:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     self._challenge = challenge
 
-                    return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
+                    extra = {"challenge": challenge}
+                    if isinstance(response, auth.WAMPCRASaltedResponse):
+                        # what the client needs to derive the key from its password
+                        extra.update(salt=response.salt, iterations=response.iterations, keylen=response.keylen)
+
+                    return messages.Challenge(messages.ChallengeFields(method, extra))
                 case Acceptor.TICKET:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     return messages.Challenge(messages.ChallengeFields(method, {}))
diff --git a/wampproto/auth/__init__.py b/wampproto/auth/__init__.py
index 18597c3..11d66b9 100644
--- a/wampproto/auth/__init__.py
+++ b/wampproto/auth/__init__.py
@@ -8,6 +8,7 @@ from wampproto.auth.auth import (
     TicketRequest,
     Response,
     WAMPCRAResponse,
+    WAMPCRASaltedResponse,
 )
 from wampproto.auth.anonymous import AnonymousAuthenticator
 from wampproto.auth.cryptosign import (
@@ -38,6 +39,7 @@ __all__ = (
     "TicketRequest",
     "Response",
     "WAMPCRAResponse",
+    "WAMPCRASaltedResponse",
     "generate_cryptosign_challenge",
     "sign_cryptosign_challenge",
     "verify_cryptosign_signature",
diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index cee42c4..79dcfd4 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From 1dd7a40893bc58fe817c4b5d61318e9b44c0230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 17/22] fix: joiner does not join after it was aborted

A WELCOME or CHALLENGE that followed an ABORT was still accepted.
---
 wampproto/joiner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..a10ca28 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -18,6 +18,7 @@ class Joiner:
     STATE_HELLO_SENT = 1
     STATE_AUTHENTICATE_SENT = 2
     STATE_JOINED = 3
+    STATE_ABORTED = 4
 
     def __init__(
         self,
@@ -71,6 +72,7 @@ class Joiner:
             self._state = Joiner.STATE_AUTHENTICATE_SENT
             return authenticate
         elif isinstance(msg, messages.Abort):
+            self._state = Joiner.STATE_ABORTED
             raise ApplicationError(msg.reason, msg.args, msg.kwargs)
         else:
             raise ValueError("received unknown message")
-- 
2.43.0


From 929a01f04e09a3909ad586f7f4f37957c7bd1478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 18/22] fix: rawsocket header of the wrong size is refused

A short read was taken for a header with a different length, as the handshake
already refuses.
---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 849096e..5752c45 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -67,6 +67,9 @@ class MessageHeader:
 
     @classmethod
     def from_bytes(cls, data: bytes) -> "MessageHeader":
+        if len(data) != 4:
+            raise ValueError("Expected 4 bytes for message header, got %d" % len(data))
+
         return MessageHeader(data[0], bytes_to_int(data[1:]))
 
 
-- 
2.43.0


From 8ad084b17e7e9c8b64e51a39c238b25695185541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 19/22] fix: payload messages leave the caller's options and
 details alone

---
 wampproto/messages/call.py       | 3 ++-
 wampproto/messages/invocation.py | 3 ++-
 wampproto/messages/result.py     | 3 ++-
 wampproto/messages/yield_.py     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..36d9a36 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,8 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            # the container was passed in by the caller and may be in use elsewhere
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..aee668b 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,8 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            # the container was passed in by the caller and may be in use elsewhere
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..54c4a9e 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,8 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            # the container was passed in by the caller and may be in use elsewhere
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..91415d3 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,8 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            # the container was passed in by the caller and may be in use elsewhere
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0


From ad0506104188cd04101cbadbe358fa026196d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 20/22] fix: a boolean in a frame is not an id or a message
 type

---
 wampproto/messages/util.py          | 3 ++-
 wampproto/serializers/serializer.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 719d0db..273d5a6 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -133,7 +133,8 @@ class Fields:
 
 
 def validate_int_or_raise(value: int, index: int, message: str):
-    if not isinstance(value, int):
+    # a boolean is an int to isinstance, but not on the wire
+    if not isinstance(value, int) or isinstance(value, bool):
         return exceptions.InvalidDataTypeError.format(
             message=message, index=index, expected_type=INT, actual_type=type(value).__name__
         )
diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..2efe1e3 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -19,7 +19,7 @@ def to_message(message: list) -> messages.Message:
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
     message_type = message[0]
-    if not isinstance(message_type, int):
+    if not isinstance(message_type, int) or isinstance(message_type, bool):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
 
     match message_type:
-- 
2.43.0


From 985b23155a0f267ec349659cdb12fa19bbbfcecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 21/22] fix: an opaque payload that is not a list is refused

---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..9b9e370 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -8,6 +8,9 @@ from wampproto import serializers
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not a list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From 3ab79fa5a636ce098451fcfa83632213c71d97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 22/22] fix: an ApplicationError without arguments has no args
 instead of its constructor's

---
 wampproto/exception.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/exception.py b/wampproto/exception.py
index 9bc7546..86e98c5 100644
--- a/wampproto/exception.py
+++ b/wampproto/exception.py
@@ -3,8 +3,8 @@ from typing import Any
 
 class ApplicationError(RuntimeError):
     def __init__(self, message: str, args: list[Any], kwargs: dict[str, Any]):
-        if args is not None:
-            super().__init__(*args)
+        # always called: without it the exception's args would be those of this constructor
+        super().__init__(*(args or []))
         self.message = message
         self._args = args
         self.kwargs = kwargs
-- 
2.43.0

