From 70cfc958bd61a6063b6dc9871839530cac6d78d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 01/13] fix: mass_cancel_orders builder must use the
 MassCancelOrders tag

It was tagged CloseMarket, so the instruction it built could not cancel anything.
---
 program/src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index 4861b63..d31c959 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -215,7 +215,7 @@ pub fn mass_cancel_orders(
 ) -> Instruction {
     let mut i = accounts.get_instruction(
         crate::id(),
-        AgnosticOrderbookInstruction::CloseMarket as u8,
+        AgnosticOrderbookInstruction::MassCancelOrders as u8,
         params,
     );
     i.accounts.push(AccountMeta {
-- 
2.43.0


From b2f21827643f14e6e9c164cd1575487ce29c5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 02/13] fix: Slab::remove_by_key on a single-order tree whose
 order does not match

The lookup went on to inspect leaf slot 0, which may hold a freed leaf with the
searched key, and then indexed the inner nodes with a leaf handle: cancelling an
order that no longer exists panicked instead of returning OrderNotFound.
---
 program/src/state/critbit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 336b0a0..a16495b 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -367,6 +367,10 @@ impl<'a, C> Slab<'a, C> {
             self.header.leaf_count = 0;
             return Some((leaf_copy, self.get_callback_info(parent_h)));
         }
+        if let Node::Leaf = Node::from_handle(parent_h) {
+            // The only order in the tree isn't the one we are looking for
+            return None;
+        }
         loop {
             match Node::from_handle(child_h) {
                 Node::Inner => {
-- 
2.43.0


From 9c85f2c06f3e44cd7f99c693236ee7027f2ac93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 03/13] fix: round_price overflowed when rounding high ask
 prices

limit_price + tick_size - 1 can exceed u64::MAX although the rounded price is
representable: the call then panicked, or wrapped to a price near zero.
---
 program/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/program/src/utils.rs b/program/src/utils.rs
index 753c0db..b4b64f9 100644
--- a/program/src/utils.rs
+++ b/program/src/utils.rs
@@ -56,7 +56,9 @@ pub fn round_price(tick_size: u64, limit_price: u64, side: Side) -> u64 {
         // Round down
         Side::Bid => tick_size * (limit_price / tick_size),
         // Round up
-        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),
+        Side::Ask => {
+            tick_size * (limit_price / tick_size + (limit_price % tick_size != 0) as u64)
+        }
     }
 }
 
-- 
2.43.0


From 6cdfd5ec0166b3eae1a54fdb499d6223186c46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 04/13] fix: EventQueue.parseFill must start at the queue head

It parsed the first buffer slots instead of the first queued events.
---
 js/src/event_queue.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index 396195a..b91d8e9 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -266,7 +266,7 @@ export class EventQueue {
       ? Math.min(limit, this.header.count.toNumber())
       : this.header.count.toNumber();
     return [...Array(n).keys()]
-      .map((e) => this.parseEvent(e))
+      .map((e) => this.peekAt(e))
       .filter((e) => e instanceof EventFill);
   }
 
-- 
2.43.0


From 15812b758623f33c41eb60517a52449f38457987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 05/13] fix: wasm find_l2_depth dropped orders of the last
 price level

The walk stopped at the first order of the last requested level instead of
aggregating the whole level.
---
 js/wasm/src/critbit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index adc7beb..8eaaf8c 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -385,7 +385,7 @@ impl<'a> Slab<'a> {
         }
         let mut result = Vec::with_capacity(2 * depth);
         let mut search_stack = vec![root.unwrap()];
-        while result.len() != 2 * depth {
+        loop {
             let current = search_stack.pop();
             if current.is_none() {
                 break;
@@ -401,6 +401,8 @@ impl<'a> Slab<'a> {
                     if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                         let idx = result.len() - 2;
                         result[idx] += leaf.base_quantity;
+                    } else if result.len() == 2 * depth {
+                        break;
                     } else {
                         result.push(leaf.base_quantity);
                         result.push(leaf_price);
-- 
2.43.0


From 155b0acf97f2e7569fe3e71f23828009d9887096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 06/13] fix: create_market must refuse bids and asks accounts
 of an unusable size

Creation succeeded on slab accounts which every later instruction panics on,
close_market included, so that the accounts' lamports could not be recovered.
---
 program/src/processor/create_market.rs |  2 ++
 program/src/state/critbit.rs           | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 4df4a09..44a42ae 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -109,6 +109,8 @@ pub fn process<'a, 'b: 'a, C: Pod>(
 
     EventQueue::<C>::from_buffer(&mut event_queue_data, AccountTag::Uninitialized)?;
 
+    Slab::<C>::check_buffer_size(&accounts.asks.data.borrow())?;
+    Slab::<C>::check_buffer_size(&accounts.bids.data.borrow())?;
     Slab::<C>::initialize(
         &mut accounts.asks.data.borrow_mut(),
         &mut accounts.bids.data.borrow_mut(),
diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index a16495b..8ee7972 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -3,7 +3,7 @@ use crate::error::AoError;
 use crate::state::AccountTag;
 use borsh::{BorshDeserialize, BorshSerialize};
 use bytemuck::{Pod, Zeroable};
-use solana_program::program_error::ProgramError;
+use solana_program::{entrypoint::ProgramResult, msg, program_error::ProgramError};
 // A Slab contains the data for a slab header and two type-split arrays of inner nodes and leaves arranger in a critbit tree
 // whose leaves contain data referencing an order of the orderbook.
 
@@ -125,6 +125,25 @@ impl<'slab, C> Slab<'slab, C> {
         Ok(())
     }
 
+    pub(crate) fn check_buffer_size(buffer: &[u8]) -> ProgramResult {
+        let callback_info_len = std::mem::size_of::<C>();
+        let leaf_size = LeafNode::LEN + callback_info_len;
+        let slots_len = match buffer.len().checked_sub(8 + SlabHeader::LEN + leaf_size) {
+            Some(l) => l,
+            None => {
+                msg!("The orderbook side account is too small!");
+                return Err(ProgramError::InvalidAccountData);
+            }
+        };
+        // What follows the node arrays must be a whole number of callback infos
+        let remainder = slots_len % (leaf_size + InnerNode::LEN);
+        if callback_info_len != 0 && remainder % callback_info_len != 0 {
+            msg!("Orderbook side account size is invalid!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        Ok(())
+    }
+
     pub fn compute_allocation_size(desired_order_capacity: usize) -> usize {
         8 + SlabHeader::LEN
             + LeafNode::LEN
-- 
2.43.0


From 19fef714451407a18c31fe0917204064bc04e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 07/13] fix: TS Slab must round its capacity down, as the
 program does

A side account of the program may hold spare callback slots; the reader then used
a fractional capacity and read the inner nodes from a wrong offset.
---
 js/src/slab.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/js/src/slab.ts b/js/src/slab.ts
index c416a06..a019a52 100644
--- a/js/src/slab.ts
+++ b/js/src/slab.ts
@@ -160,9 +160,11 @@ export class Slab {
     this.callBackInfoLen = arg.callBackInfoLen;
     const leafSize = LeafNode.LEN + arg.callBackInfoLen;
 
-    const capacity =
+    // The program ignores what is left behind a whole number of slots
+    const capacity = Math.floor(
       (arg.buffer.length - SlabHeader.LEN - leafSize) /
-      (leafSize + InnerNode.LEN);
+        (leafSize + InnerNode.LEN)
+    );
     let innerNodesBufferOffset = SlabHeader.LEN + (capacity + 1) * LeafNode.LEN;
     let leavesBuffer = arg.buffer.slice(SlabHeader.LEN, innerNodesBufferOffset);
     let callbackInfoBufferOffset =
@@ -172,7 +174,7 @@ export class Slab {
       callbackInfoBufferOffset
     );
     let callbackInfoBuffer = arg.buffer.slice(callbackInfoBufferOffset);
-    this.orderCapacity = Math.floor(capacity);
+    this.orderCapacity = capacity;
     this.leafBuffer = leavesBuffer;
     this.innerNodeBuffer = innerNodeBuffer;
     this.callbackInfoBuffer = callbackInfoBuffer;
-- 
2.43.0


From fad985fc8c07b081a0926d89d9a3026606726011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 08/13] fix: TS createMarketInstruction must send only what
 create_market decodes

The program takes the minimum order size and the tick size; the other fields made
every instruction fail with InvalidInstructionData.
---
 js/src/raw_instructions.ts | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/js/src/raw_instructions.ts b/js/src/raw_instructions.ts
index daa0fdd..f5bcb70 100644
--- a/js/src/raw_instructions.ts
+++ b/js/src/raw_instructions.ts
@@ -210,12 +210,8 @@ export class createMarketInstruction {
         kind: "struct",
         fields: [
           ["tag", "u8"],
-          ["callerAuthority", [32]],
-          ["callbackInfoLen", "u64"],
-          ["callbackIdLen", "u64"],
           ["minBaseOrderSize", "u64"],
           ["tickSize", "u64"],
-          ["crankerReward", "u64"],
         ],
       },
     ],
-- 
2.43.0


From 5553289ba0586c16cbafb666fae7fd55b62fde3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 09/13] fix: TS newOrderInstruction must send the callback info
 without a length

The program's callback info is a fixed 32 bytes; the length prefix shifted it and
made every instruction fail with InvalidInstructionData.
---
 js/src/raw_instructions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/raw_instructions.ts b/js/src/raw_instructions.ts
index f5bcb70..42ebd4d 100644
--- a/js/src/raw_instructions.ts
+++ b/js/src/raw_instructions.ts
@@ -294,7 +294,7 @@ export class newOrderInstruction {
           ["limitPrice", "u64"],
           ["side", "u8"],
           ["matchLimit", "u64"],
-          ["callbackInfo", ["u8"]],
+          ["callbackInfo", [32]],
           ["postOnly", "u8"],
           ["postAllowed", "u8"],
           ["selfTradeBehavior", "u8"],
-- 
2.43.0


From 5e54a4723201e88911d86a5c76d9b1769f9362af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 10/13] fix: close_market panicked on a side account with a
 wrong tag

The tag mismatch is reported as AccountTagMismatch, as every other instruction does.
---
 program/src/processor/close_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/processor/close_market.rs b/program/src/processor/close_market.rs
index 9917c9a..9af86fa 100644
--- a/program/src/processor/close_market.rs
+++ b/program/src/processor/close_market.rs
@@ -88,7 +88,7 @@ where
     let mut asks_data = accounts.asks.data.borrow_mut();
 
     // Check if there are still orders in the book
-    let orderbook_state = OrderBookState::<C>::new_safe(&mut bids_data, &mut asks_data).unwrap();
+    let orderbook_state = OrderBookState::<C>::new_safe(&mut bids_data, &mut asks_data)?;
     if !orderbook_state.is_empty() {
         msg!("The orderbook must be empty");
         return Err(ProgramError::from(AoError::MarketStillActive));
-- 
2.43.0


From 692a191ba88bdc05dda46911167874f7203797ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 11/13] fix: create_market panicked on an event queue of an
 unusable size

check_buffer_size's error (InvalidAccountData) is returned, as for the other accounts.
---
 program/src/processor/create_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 44a42ae..b61cab2 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -90,7 +90,7 @@ pub fn process<'a, 'b: 'a, C: Pod>(
         return Err(ProgramError::InvalidArgument);
     }
 
-    EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow()).unwrap();
+    EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow())?;
 
     let mut market_data = accounts.market.data.borrow_mut();
 
-- 
2.43.0


From 13e4801fc6a9d88252fc4be0cf5730d306c414a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 12/13] fix: empty instruction data panicked instead of
 InvalidInstructionData

---
 program/src/processor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 264f203..5118216 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -25,8 +25,10 @@ where
     <C as CallbackInfo>::CallbackId: PartialEq,
 {
     msg!("Beginning processing");
-    let instruction =
-        FromPrimitive::from_u8(instruction_data[0]).ok_or(ProgramError::InvalidInstructionData)?;
+    let instruction = instruction_data
+        .first()
+        .and_then(|tag| FromPrimitive::from_u8(*tag))
+        .ok_or(ProgramError::InvalidInstructionData)?;
     let instruction_data = &instruction_data[1..];
     msg!("Instruction unpacked");
 
-- 
2.43.0


From 0c6ce653c41bbd1ec05fead0bfc50b64f56806c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:12 +0000
Subject: [PATCH 13/13] fix: orders of markets without callback information
 panicked

A callback info of size zero takes no room in the accounts, so the slices
cast from them were empty and indexing them panicked.
---
 program/src/state/critbit.rs     | 3 ++-
 program/src/state/event_queue.rs | 3 ++-
 program/src/utils.rs             | 9 +++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 8ee7972..757bcc7 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -1,6 +1,7 @@
 #![allow(missing_docs)]
 use crate::error::AoError;
 use crate::state::AccountTag;
+use crate::utils::cast_callback_infos;
 use borsh::{BorshDeserialize, BorshSerialize};
 use bytemuck::{Pod, Zeroable};
 use solana_program::{entrypoint::ProgramResult, msg, program_error::ProgramError};
@@ -172,7 +173,7 @@ impl<'a, C: Pod> Slab<'a, C> {
             header,
             leaf_nodes: bytemuck::cast_slice_mut::<_, LeafNode>(leaves),
             inner_nodes: bytemuck::cast_slice_mut::<_, InnerNode>(inner_nodes),
-            callback_infos: bytemuck::cast_slice_mut::<_, C>(callback_infos),
+            callback_infos: cast_callback_infos(callback_infos, capacity + 1),
         })
     }
 }
diff --git a/program/src/state/event_queue.rs b/program/src/state/event_queue.rs
index a53464a..eccd0c8 100644
--- a/program/src/state/event_queue.rs
+++ b/program/src/state/event_queue.rs
@@ -12,6 +12,7 @@ use solana_program::{entrypoint::ProgramResult, msg, program_error::ProgramError
 
 use crate::error::AoError;
 pub use crate::state::orderbook::{OrderSummary, ORDER_SUMMARY_SIZE};
+use crate::utils::cast_callback_infos;
 pub use crate::utils::get_spread;
 
 use super::{AccountTag, Side};
@@ -169,7 +170,7 @@ impl<'queue, C: Pod> EventQueue<'queue, C> {
         Ok(Self {
             header: bytemuck::from_bytes_mut(header),
             events: bytemuck::cast_slice_mut(events),
-            callback_infos: bytemuck::cast_slice_mut(callback_infos),
+            callback_infos: cast_callback_infos(callback_infos, 2 * capacity),
         })
     }
 }
diff --git a/program/src/utils.rs b/program/src/utils.rs
index b4b64f9..9c8c726 100644
--- a/program/src/utils.rs
+++ b/program/src/utils.rs
@@ -1,5 +1,6 @@
 use crate::{error::AoError, state::Side};
 
+use bytemuck::Pod;
 use solana_program::{account_info::AccountInfo, pubkey::Pubkey};
 
 use crate::state::orderbook::{CallbackInfo, OrderBookState};
@@ -35,6 +36,14 @@ pub(crate) fn check_account_owner(
     Ok(())
 }
 
+/// Get the callback infos stored in a buffer. Those of size zero take no room in it.
+pub(crate) fn cast_callback_infos<C: Pod>(buf: &mut [u8], count: usize) -> &mut [C] {
+    if std::mem::size_of::<C>() == 0 {
+        return vec![C::zeroed(); count].leak();
+    }
+    bytemuck::cast_slice_mut(buf)
+}
+
 /// This util is used to return the orderbook's spread (best_bid_price, best_ask_price) with both values in FP32 format
 pub fn get_spread<'ob, 'b: 'ob, C: CallbackInfo + PartialEq>(
     bids_account: &'ob AccountInfo<'b>,
-- 
2.43.0

