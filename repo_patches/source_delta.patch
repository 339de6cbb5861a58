From 638ea1b44008122b34b89d93dcaf2d9c578449ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 01/15] fix: a cancelled suspicion timeout no longer tells the
 member it is down

ChangeSuspectToDown sent TurnUndead whenever a record with the member's
address existed, even when the suspicion had been refuted or the member
renamed, and compared incarnations of unrelated identities.
---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4243788..3388d0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -709,12 +709,20 @@ where
                         .members
                         // Down is terminal, so before doing that we ensure the member
                         // is still under suspicion.
-                        // Checking only incarnation is sufficient because to refute
-                        // suspicion the member must increment its own incarnation
+                        // Checking only identity and incarnation is sufficient because
+                        // to refute suspicion the member must increment its own
+                        // incarnation
                         .apply_existing_if(as_down.clone(), |member| {
-                            member.incarnation() == incarnation
+                            member.id() == &member_id && member.incarnation() == incarnation
                         })
                     {
+                        // The suspicion has been refuted, the member has been
+                        // replaced by another identity or it's already down:
+                        // there's nothing to declare
+                        if !summary.apply_successful {
+                            return Ok(());
+                        }
+
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
                         // Member went down we might need to adjust our internal state
                         self.adjust_connection_state(&mut runtime);
-- 
2.43.0


From 2a5979dd33fc24627298f404431f2edb98d19224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 02/15] fix: undead members no longer bounce TurnUndead back
 and forth

Two members with notify_down_members that consider each other down and
can't renew their identities replied to every TurnUndead with another.
---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3388d0f..5bf777a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -972,11 +972,18 @@ where
             // So we handle TurnUndead here, otherwise the nodes will be
             // spamming each other with this message until enough time passes
             // that foca forgets the down member (`Config::remove_down_after`)
+            let mut should_reply = self.config.notify_down_members;
             if message == Message::TurnUndead {
+                let was_undead = self.connection_state == ConnectionState::Undead;
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+
+                // When this message teaches us nothing new, answering it in
+                // kind would have two undead members bouncing TurnUndead
+                // back and forth until one forgets about the other
+                should_reply &= !was_undead || self.connection_state != ConnectionState::Undead;
             }
 
-            if self.config.notify_down_members {
+            if should_reply {
                 self.send_message(src, Message::TurnUndead, runtime)?;
             }
 
-- 
2.43.0


From e22eda4bcded7a269cbe17d10a762f061890c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 03/15] fix: never announce to our own previous identities

The periodic announce to down members could pick a down record bearing
the instance's own address.
---
 src/lib.rs    | 10 ++++++++--
 src/member.rs | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bf777a..f140905 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -493,8 +493,14 @@ where
 
     fn announce_to_down(&mut self, num_members: usize, mut runtime: impl Runtime<T>) -> Result<()> {
         self.choice_buf.clear();
-        self.members
-            .choose_down_members(num_members, &mut self.choice_buf, &mut self.rng);
+        let own_addr = self.identity.addr();
+        self.members.choose_down_members_if(
+            num_members,
+            &mut self.choice_buf,
+            &mut self.rng,
+            // Our own previous identities may be listed as down
+            |member| member.addr() != own_addr,
+        );
 
         while let Some(chosen) = self.choice_buf.pop() {
             self.send_message(chosen.into_identity(), Message::Announce, &mut runtime)?;
diff --git a/src/member.rs b/src/member.rs
index 3c0daa1..42fb274 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -240,13 +240,28 @@ where
         }
     }
 
+    #[cfg(test)]
     pub(crate) fn choose_down_members(
         &self,
         wanted: usize,
         output: &mut Vec<Member<T>>,
         rng: impl Rng,
     ) {
-        self.choose_members(wanted, output, rng, |member| !member.is_active());
+        self.choose_down_members_if(wanted, output, rng, |_| true);
+    }
+
+    pub(crate) fn choose_down_members_if<F>(
+        &self,
+        wanted: usize,
+        output: &mut Vec<Member<T>>,
+        rng: impl Rng,
+        picker: F,
+    ) where
+        F: Fn(&T) -> bool,
+    {
+        self.choose_members(wanted, output, rng, |member| {
+            !member.is_active() && picker(member.id())
+        });
     }
 
     pub(crate) fn choose_active_members<F>(
-- 
2.43.0


From f01b86e02a81dcb75903ebafbf8fedb054685823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 04/15] fix: resize the send buffer when max_packet_size
 changes

With debug assertions on, the first datagram sent after set_config
changed max_packet_size panicked.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f140905..c21642b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -872,6 +872,10 @@ where
                 "Configuration changed"
             );
 
+            if self.config.max_packet_size != config.max_packet_size {
+                self.send_buf = Vec::with_capacity(config.max_packet_size.get());
+            }
+
             self.config = config;
             Ok(())
         }
-- 
2.43.0


From 888e81ce8a979e78de8cf0c42cad6c2daa45cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 05/15] fix: refuse custom broadcasts longer than their u16
 length prefix

With a max_packet_size beyond 64KiB such an item would be framed with a
truncated length (or panic, with debug assertions on).
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c21642b..6c78e4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -600,7 +600,10 @@ where
         }
 
         // Not considering the whole header
-        if data.len() > self.config.max_packet_size.get() {
+        if data.len() > self.config.max_packet_size.get()
+            // Items are prefixed with their length, as u16
+            || data.len() > usize::from(u16::MAX)
+        {
             return Err(Error::DataTooBig);
         }
 
-- 
2.43.0


From ac58434d990316d3ae2bf82e8267b1417a457ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 06/15] fix: bound the number of members in a Feed to what its
 u16 count can express

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6c78e4d..06ca7e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1442,7 +1442,8 @@ where
         // so header_len / 2 is good enough for identity_len
         let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
         // and we always answer at least 5, in case the estimation is bonkers
-        usize::max(remaining / identity_len, 5)
+        // The number of items must fit in an u16
+        usize::clamp(remaining / identity_len, 5, u16::MAX.into())
     }
 
     fn send_message(
-- 
2.43.0


From 2e1ae1d8e4b8aeb653737d05dacf5a22e4f851dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 07/15] fix: don't allocate whatever max_packet_size and
 num_indirect_probes allow upfront

---
 src/lib.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06ca7e7..e5392f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,8 +252,7 @@ where
         codec: C,
         broadcast_handler: B,
     ) -> Self {
-        let max_indirect_probes = config.num_indirect_probes.get();
-        let max_bytes = config.max_packet_size.get();
+        let send_buf = Self::alloc_send_buf(&config);
         Self {
             identity,
             config,
@@ -262,12 +261,12 @@ where
             incarnation: Incarnation::default(),
             timer_token: TimerToken::default(),
             members: Members::new(Vec::new()),
-            probe: Probe::new(Vec::with_capacity(max_indirect_probes)),
+            probe: Probe::new(Vec::new()),
             updates_buf: Vec::new(),
             choice_buf: Vec::new(),
             connection_state: ConnectionState::Disconnected,
             updates: Broadcasts::new(),
-            send_buf: Vec::with_capacity(max_bytes),
+            send_buf,
             custom_broadcasts: Broadcasts::new(),
             broadcast_handler,
         }
@@ -876,7 +875,7 @@ where
             );
 
             if self.config.max_packet_size != config.max_packet_size {
-                self.send_buf = Vec::with_capacity(config.max_packet_size.get());
+                self.send_buf = Self::alloc_send_buf(&config);
             }
 
             self.config = config;
@@ -1432,6 +1431,13 @@ where
         runtime.notify(Notification::Active);
     }
 
+    // Config::max_packet_size may be arbitrarily large, so it's only
+    // allocated upfront up to a sane limit: the buffer still grows
+    // when there's more to send
+    fn alloc_send_buf(config: &Config) -> Vec<u8> {
+        Vec::with_capacity(usize::min(config.max_packet_size.get(), u16::MAX.into()))
+    }
+
     #[inline]
     fn estimate_feed_capacity(&self, remaining: usize) -> usize {
         // We're can't be precise here: not only we don't control how things
@@ -1473,9 +1479,9 @@ where
         //     This must be done for every return point in send_message
         self.send_buf.clear();
         let mut buf = mem::take(&mut self.send_buf).limit(self.config.max_packet_size.get());
-        debug_assert_eq!(
-            buf.get_ref().capacity(),
-            self.config.max_packet_size.get(),
+        debug_assert!(
+            buf.get_ref().capacity()
+                >= usize::min(self.config.max_packet_size.get(), u16::MAX.into()),
             "send_buf lost capacity, would trigger unnecessary allocs"
         );
 
-- 
2.43.0


From 381c9c6e5d2df858a1cc9b72537c2bd53cc70815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 08/15] fix: a header shorter than two bytes no longer divides
 by zero when sending a Feed

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5392f2..d91c643 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1446,7 +1446,11 @@ where
         // bound.
         // Header contains 2 identities + message::feed + incarnation(u16)
         // so header_len / 2 is good enough for identity_len
-        let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
+        // (at least 1: a tiny header must not lead to a division by zero)
+        let identity_len = usize::max(
+            self.config.max_packet_size.get().saturating_sub(remaining) / 2,
+            1,
+        );
         // and we always answer at least 5, in case the estimation is bonkers
         // The number of items must fit in an u16
         usize::clamp(remaining / identity_len, 5, u16::MAX.into())
-- 
2.43.0


From 7e1ae40bd6aef5d650a401b27974d1929e9c7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:01 +0000
Subject: [PATCH 09/15] fix: members that left the cluster no longer refute
 suspicions

When nobody alive received the news of the departure, every suspicion
raised by failed probes was refuted by the defunct member itself, so the
survivors never declared it down.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d91c643..c96e7e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1660,7 +1660,12 @@ where
                 // But since the cluster is chatting about us possibly being
                 // down, we'll send a few updates around in order to help
                 // disseminate the refutation
-                self.gossip(runtime)?;
+                // Unless we're down indeed (by leaving the cluster, for
+                // example): refuting would keep everyone that hasn't heard
+                // about it yet from ever finding out
+                if self.connection_state != ConnectionState::Undead {
+                    self.gossip(runtime)?;
+                }
             }
             State::Alive => {
                 // The cluster is talking about our liveness. Nothing to do.
-- 
2.43.0


From 4f0976b257684552c3bef56a9611072d8f02fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 10/15] fix: announce the renewed identity so that simultaneous
 rejoins converge

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c96e7e7..7438500 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1700,6 +1700,17 @@ where
 
                 runtime.notify(Notification::Rejoin(&new_identity));
 
+                // The members we know may be renewing their identities just
+                // like us (a healed partition, for example). They discard
+                // everything addressed to their previous identity, except
+                // for announcements, so this is what ensures that we'll
+                // hear from them
+                self.choose_and_send(
+                    self.config.num_indirect_probes.get(),
+                    Message::Announce,
+                    runtime,
+                )?;
+
                 Ok(true)
             }
         } else {
-- 
2.43.0


From 9e4863082d351552a7e366df148a05c38126e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 11/15] fix: a ping that cannot be encoded no longer ends the
 probe loop

When the header did not fit max_packet_size (a member with a long identity,
say) handle_timer returned before scheduling the next ProbeRandomMember, so
no member was ever probed again, not even after set_config allowed bigger
packets.
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7438500..a17cef0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1227,6 +1227,9 @@ where
             }
         }
 
+        // Failing to send must not prevent the scheduling of what's next:
+        // nothing else would ever start another probe cycle
+        let mut send_result = Ok(());
         if let Some(member) = self.members.next(&mut self.rng) {
             let member_id = member.id().clone();
             let probe_number = self.probe.start(member.clone());
@@ -1234,7 +1237,8 @@ where
             #[cfg(feature = "tracing")]
             tracing::debug!(member_id = tracing::field::debug(&member_id), "Probe start");
 
-            self.send_message(member_id.clone(), Message::Ping(probe_number), &mut runtime)?;
+            send_result =
+                self.send_message(member_id.clone(), Message::Ping(probe_number), &mut runtime);
 
             runtime.submit_after(
                 Timer::SendIndirectProbe {
@@ -1258,7 +1262,7 @@ where
         if probe_was_incomplete {
             Err(Error::IncompleteProbeCycle)
         } else {
-            Ok(())
+            send_result
         }
     }
 
-- 
2.43.0


From 78dfd2c724c5a1490a72470e56521e7d0737d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 12/15] fix: leave_cluster leaves even when its gossip cannot
 be encoded

The update that declares the own identity down was already queued, so an
instance that remained active would tell everyone that it is down.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a17cef0..864694d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,13 +581,13 @@ where
         self.updates
             .add_or_replace(addr, data, self.config.max_transmissions.get().into());
 
-        self.gossip(&mut runtime)?;
+        let gossip_result = self.gossip(&mut runtime);
 
         // We could try to be smart here and only go defunct if there
         // are active members, but I'd rather have consistent behaviour.
         self.become_undead(&mut runtime);
 
-        Ok(())
+        gossip_result
     }
 
     /// Register some data to be broadcast along with Foca messages.
-- 
2.43.0


From fc69c8ea1be8282cd6792a3cf078ecc7f9ca680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 13/15] fix: a renewed identity is reported even when its
 gossip cannot be encoded

The identity had already been replaced, but neither Rejoin nor Defunct was
ever notified.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 864694d..212b308 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1700,9 +1700,11 @@ where
                 );
                 Ok(false)
             } else {
-                self.change_identity(new_identity.clone(), &mut runtime)?;
+                let gossip_result = self.change_identity(new_identity.clone(), &mut runtime);
 
+                // The identity changed, regardless of being able to gossip
                 runtime.notify(Notification::Rejoin(&new_identity));
+                gossip_result?;
 
                 // The members we know may be renewing their identities just
                 // like us (a healed partition, for example). They discard
-- 
2.43.0


From 015d0e0d619807f7d9008efad81c55dc73e15682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 14/15] fix: updates are applied even when the reaction to one
 about ourselves cannot be sent

The rest of the batch was dropped and neither Active nor Idle was notified
for the members that had been applied before it.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 212b308..996a508 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -398,9 +398,15 @@ where
         do_broadcast: bool,
         mut runtime: impl Runtime<T>,
     ) -> Result<()> {
+        let mut gossip_result = Ok(());
+
         for update in updates {
             if update.id() == &self.identity {
-                self.handle_self_update(update.incarnation(), update.state(), &mut runtime)?;
+                // Reacting may fail due to being unable to send messages, which
+                // has no influence on the remaining updates
+                let result =
+                    self.handle_self_update(update.incarnation(), update.state(), &mut runtime);
+                gossip_result = gossip_result.and(result);
             } else if self.identity.addr() == update.id().addr() {
                 // We received an update that's about an identity that *could*
                 // have been ours but definitely isn't (the branch right above,
@@ -442,7 +448,7 @@ where
 
         self.adjust_connection_state(runtime);
 
-        Ok(())
+        gossip_result
     }
 
     fn adjust_connection_state(&mut self, runtime: impl Runtime<T>) {
-- 
2.43.0


From 19d302c9bcdaca8f4a0e4e832c3fd5b8efccc4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 15/15] fix: a message is reacted to even when a refutation
 cannot be gossiped

The custom broadcasts it carried were dropped, a Ping was not answered and
an Ack did not count, leading to a suspicion.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 996a508..aa41135 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1016,7 +1016,7 @@ where
         // the borrow checker. And then put it back in its place, so
         // that we can keep reusing its already-allocated space.
         let mut updates = mem::take(&mut self.updates_buf);
-        self.apply_many(updates.drain(..), true, &mut runtime)?;
+        let apply_result = self.apply_many(updates.drain(..), true, &mut runtime);
         debug_assert_eq!(
             0,
             self.updates_buf.capacity(),
@@ -1027,7 +1027,8 @@ where
         // Right now there might still be some data left to read in the
         // buffer (custom broadcasts). We'll handle those before we
         // react to the message we just received
-        let custom_broadcasts_result = self.handle_custom_broadcasts(data, Some(&src));
+        let custom_broadcasts_result =
+            apply_result.and(self.handle_custom_broadcasts(data, Some(&src)));
 
         // If we're not connected (anymore), we can't react to a message
         // so there's nothing more to do
-- 
2.43.0

