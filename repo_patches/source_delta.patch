From 3479285bc79ec6d074b05829490a5ea887a99ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 01/33] fix: register_node keeps the host of addresses given
 without a scheme

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..c801810 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -25,7 +25,8 @@ class Blockchain:
     :param address: Address of node. Eg. 'http://192.168.0.5:5000'
     """
 
-    parsed_url = urlparse(address)
+    # Without '//' a host name would be taken for the scheme ('node1:5000').
+    parsed_url = urlparse(address if '//' in address else '//' + address)
     if parsed_url.netloc:
       self.nodes.add(parsed_url.netloc)
     elif parsed_url.path:
-- 
2.43.0


From 6fa9d6c7f4d39da7cad3c05316433604a6b1f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 02/33] fix: resolve_conflicts counts the blocks instead of
 trusting the peer's claim

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index c801810..ad741b9 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -85,8 +85,9 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        # Count the blocks ourselves, the peer may claim any length
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From 45ff252a319d0d8953a98c44e4af8681a295dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 03/33] fix: one bad peer no longer aborts or blocks conflict
 resolution

---
 misc/blockchain.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index ad741b9..f93f48e 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -74,7 +74,8 @@ class Blockchain:
     :return: True if our chain was replaced, False if not
     """
 
-    neighbours = self.nodes
+    # Peers may be registered while we are waiting for the network
+    neighbours = list(self.nodes)
     new_chain = None
 
     # We're only looking for chains longer than ours
@@ -82,17 +83,23 @@ class Blockchain:
 
     # Grab and verify the chains from all the nodes in our network
     for node in neighbours:
-      response = requests.get(f'http://{node}/chain')
-
-      if response.status_code == 200:
-        chain = response.json()['chain']
-        # Count the blocks ourselves, the peer may claim any length
-        length = len(chain)
-
-        # Check if the length is longer and the chain is valid
-        if length > max_length and self.valid_chain(chain):
-          max_length = length
-          new_chain = chain
+      # An unreachable, stalled or misbehaving peer must not keep us from
+      # asking the others
+      try:
+        response = requests.get(f'http://{node}/chain', timeout=10)
+
+        if response.status_code == 200:
+          chain = response.json()['chain']
+          # Count the blocks ourselves, the peer may claim any length
+          length = len(chain)
+
+          # Check if the length is longer and the chain is valid
+          if length > max_length and self.valid_chain(chain):
+            max_length = length
+            new_chain = chain
+      except (requests.RequestException, ValueError, KeyError, TypeError,
+              IndexError, AttributeError):
+        continue
 
     # Replace our chain if we discovered a new, valid chain longer than ours
     if new_chain:
-- 
2.43.0


From de5b4654af9491df1a9641f45fb59da11b0d1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 04/33] fix: concurrent requests can no longer fork or corrupt
 a node's own chain

---
 misc/blockchain.py     | 47 ++++++++++++++++++++++++------------------
 misc/run_blockchain.py | 42 ++++++++++++++++++++++---------------
 2 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index f93f48e..ed97a1b 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -1,5 +1,6 @@
 import hashlib
 import json
+from threading import RLock
 from time import time
 from urllib.parse import urlparse
 from uuid import uuid4
@@ -14,6 +15,8 @@ class Blockchain:
     self.current_transactions = []
     self.chain = []
     self.nodes = set()
+    # Requests are served by several threads: guards chain and pending list
+    self.lock = RLock()
 
     # Create the genesis block
     self.new_block(previous_hash='1', proof=100)
@@ -102,9 +105,11 @@ class Blockchain:
         continue
 
     # Replace our chain if we discovered a new, valid chain longer than ours
-    if new_chain:
-      self.chain = new_chain
-      return True
+    # (which may have grown while we were asking)
+    with self.lock:
+      if new_chain and len(new_chain) > len(self.chain):
+        self.chain = new_chain
+        return True
 
     return False
 
@@ -117,19 +122,20 @@ class Blockchain:
     :return: New Block
     """
 
-    block = {
-        'index': len(self.chain) + 1,
-        'timestamp': time(),
-        'transactions': self.current_transactions,
-        'proof': proof,
-        'previous_hash': previous_hash or self.hash(self.chain[-1]),
-    }
+    with self.lock:
+      block = {
+          'index': len(self.chain) + 1,
+          'timestamp': time(),
+          'transactions': self.current_transactions,
+          'proof': proof,
+          'previous_hash': previous_hash or self.hash(self.chain[-1]),
+      }
 
-    # Reset the current list of transactions
-    self.current_transactions = []
+      # Reset the current list of transactions
+      self.current_transactions = []
 
-    self.chain.append(block)
-    return block
+      self.chain.append(block)
+      return block
 
   def new_transaction(self, sender, recipient, amount):
     """
@@ -140,13 +146,14 @@ class Blockchain:
     :param amount: Amount
     :return: The index of the Block that will hold this transaction
     """
-    self.current_transactions.append({
-        'sender': sender,
-        'recipient': recipient,
-        'amount': amount,
-    })
+    with self.lock:
+      self.current_transactions.append({
+          'sender': sender,
+          'recipient': recipient,
+          'amount': amount,
+      })
 
-    return self.last_block['index'] + 1
+      return self.last_block['index'] + 1
 
   @property
   def last_block(self):
diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 6c2182b..45596ce 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -10,21 +10,28 @@ blockchain = Blockchain()
 
 @app.route('/mine', methods=['GET'])
 def mine():
-  # We run the proof of work algorithm to get the next proof...
-  last_block = blockchain.last_block
-  proof = blockchain.proof_of_work(last_block)
-
-  # We must receive a reward for finding the proof.
-  # The sender is "0" to signify that this node has mined a new coin.
-  blockchain.new_transaction(
-      sender="0",
-      recipient=node_identifier,
-      amount=1,
-  )
-
-  # Forge the new Block by adding it to the chain
-  previous_hash = blockchain.hash(last_block)
-  block = blockchain.new_block(proof, previous_hash)
+  while True:
+    # We run the proof of work algorithm to get the next proof...
+    last_block = blockchain.last_block
+    proof = blockchain.proof_of_work(last_block)
+
+    with blockchain.lock:
+      # The proof is only good for the block it was searched for
+      if blockchain.last_block is not last_block:
+        continue
+
+      # We must receive a reward for finding the proof.
+      # The sender is "0" to signify that this node has mined a new coin.
+      blockchain.new_transaction(
+          sender="0",
+          recipient=node_identifier,
+          amount=1,
+      )
+
+      # Forge the new Block by adding it to the chain
+      previous_hash = blockchain.hash(last_block)
+      block = blockchain.new_block(proof, previous_hash)
+      break
 
   response = {
       'message': "New Block Forged",
@@ -55,9 +62,10 @@ def new_transaction():
 
 @app.route('/chain', methods=['GET'])
 def full_chain():
+  chain = list(blockchain.chain)
   response = {
-      'chain': blockchain.chain,
-      'length': len(blockchain.chain),
+      'chain': chain,
+      'length': len(chain),
   }
   return jsonify(response), 200
 
-- 
2.43.0


From 85dc0656344c7fcf29f08ceb62887f59368b8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 05/33] fix: malformed requests are refused instead of failing
 half-way

---
 misc/blockchain.py     | 13 +++++++++++--
 misc/run_blockchain.py | 13 ++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index ed97a1b..22d909d 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -27,14 +27,23 @@ class Blockchain:
 
     :param address: Address of node. Eg. 'http://192.168.0.5:5000'
     """
+    self.nodes.add(self.node_location(address))
+
+  @staticmethod
+  def node_location(address):
+    """
+    Host (and port) of a node, ValueError if the address has none
+    """
+    if not isinstance(address, str):
+      raise ValueError('Invalid URL')
 
     # Without '//' a host name would be taken for the scheme ('node1:5000').
     parsed_url = urlparse(address if '//' in address else '//' + address)
     if parsed_url.netloc:
-      self.nodes.add(parsed_url.netloc)
+      return parsed_url.netloc
     elif parsed_url.path:
       # Accepts an URL without scheme like '192.168.0.5:5000'.
-      self.nodes.add(parsed_url.path)
+      return parsed_url.path
     else:
       raise ValueError('Invalid URL')
 
diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 45596ce..abb9bbd 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -49,7 +49,7 @@ def new_transaction():
 
   # Check that the required fields are in the POST'ed data
   required = ['sender', 'recipient', 'amount']
-  if not all(k in values for k in required):
+  if not isinstance(values, dict) or not all(k in values for k in required):
     return 'Missing values', 400
 
   # Create a new Transaction
@@ -74,8 +74,15 @@ def full_chain():
 def register_nodes():
   values = request.get_json()
 
-  nodes = values.get('nodes')
-  if nodes is None:
+  nodes = values.get('nodes') if isinstance(values, dict) else None
+  if not isinstance(nodes, list):
+    return "Error: Please supply a valid list of nodes", 400
+
+  # All or nothing: a bad address must not leave the list half registered
+  try:
+    for node in nodes:
+      blockchain.node_location(node)
+  except ValueError:
     return "Error: Please supply a valid list of nodes", 400
 
   for node in nodes:
-- 
2.43.0


From 808f1dc68a244255e9499fe136fb502bc17f9f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 06/33] fix: simulated transcripts carry the mapping the
 verifier checks

---
 misc/zero_knowledge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..f690b57 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -182,7 +182,8 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  # The response maps H back onto the chosen graph, as in the real protocol
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From cdf0f4821b11860ac8e8dd06a92b2e7cca40b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 07/33] fix: the proximity query no longer reseeds the
 process-wide random source

---
 starks/fri.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 339ddc1..2f97d04 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -1,7 +1,6 @@
 import math
 import hashlib
-from random import seed
-from random import randint
+from random import Random
 from typing import List
 from starks.merkle_tree import merkelize
 from starks.merkle_tree import mk_branch
@@ -101,7 +100,9 @@ class AffineSubspaceFRI(object):
         return interp.coefficients[:d+1]
 
   def query(self, f, coeff):
-    seed(1)
+    # a generator of our own: reseeding the process-wide one would make the
+    # secrets and challenges others draw from it predictable
+    rng = Random(1)
     # rate parameter
     R = -math.log(self.rho, 2)
     # localization parameter
@@ -139,7 +140,7 @@ class AffineSubspaceFRI(object):
 
     for j in range(l):
       # randomly select a ellement of L[0]
-      random_n = randint(0, len(L[0]))
+      random_n = rng.randint(0, len(L[0]))
       #constructing s
       s_i = []
       count = 1
-- 
2.43.0


From 7b251ac9ab3d805751520daca7a2b7fa0bf3513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 08/33] fix: the 3-colouring verifier refuses a fourth colour

---
 misc/zkp_3_coloring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 0fd2419..256d97d 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -83,6 +83,9 @@ class ZK3ColVerifier(object):
       revealed_colors.append(trueColor)
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
+      # two bits can hold a fourth value, which is no colour
+      if trueColor > 2:
+        return False
 
     return revealed_colors[0] != revealed_colors[1]
 
-- 
2.43.0


From 11b75b53dd7bff922c61837790214416a6f89373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 09/33] fix: openings that leave bits of a commitment unopened
 no longer verify

---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..f441a79 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,9 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    # zip would stop at the shorter list and leave bits unopened
+    if not len(secrets) == len(bitCommitments) == len(self.verifiers):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From 46fee2e0906c66ef84c328d573fdc238d2cd710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 10/33] fix: bit commitments can no longer be opened to the
 other bit with a negated square root

---
 misc/commitment.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/misc/commitment.py b/misc/commitment.py
index f441a79..2f8cd6a 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -29,15 +29,17 @@ class CommitmentScheme(object):
 class BBSBitCommitmentScheme(CommitmentScheme):
 
   def generateSecret(self):
-    # the secret is a random quadratic residue
-    self.secret = self.oneWayPermutation(
-        random.getrandbits(self.security_parameter))
+    # the committed bit is masked with a random quadratic residue; the secret
+    # is a square root of it, which shows that it is one: other square roots of
+    # the published square (such as minus the residue) would mask another bit
+    self.secret = random.getrandbits(self.security_parameter)
     return self.secret
 
   def commit(self, bit):
-    unguessableBit = self.hardcorePredicate(self.secret)
+    residue = self.oneWayPermutation(self.secret)
+    unguessableBit = self.hardcorePredicate(residue)
     return (
-        self.oneWayPermutation(self.secret),
+        self.oneWayPermutation(residue),
         unguessableBit ^ bit,  # python xor
     )
 
@@ -50,15 +52,16 @@ class BBSBitCommitmentVerifier(object):
 
   def verify(self, securityString, claimedCommitment):
     trueBit = self.decode(securityString, claimedCommitment)
-    unguessableBit = self.hardcorePredicate(
-        securityString)  # wasteful, whatever
+    residue = self.oneWayPermutation(securityString)
+    unguessableBit = self.hardcorePredicate(residue)  # wasteful, whatever
     return claimedCommitment == (
-        self.oneWayPermutation(securityString),
+        self.oneWayPermutation(residue),
         unguessableBit ^ trueBit,  # python xor
     )
 
   def decode(self, securityString, claimedCommitment):
-    unguessableBit = self.hardcorePredicate(securityString)
+    unguessableBit = self.hardcorePredicate(
+        self.oneWayPermutation(securityString))
     return claimedCommitment[1] ^ unguessableBit
 
 
-- 
2.43.0


From 6e883f1299116b88d83990e09826b76537f55a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 11/33] fix: an inner node or a shifted leaf boundary no longer
 passes for a merkle leaf

---
 starks/merkle_tree.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index 39f07ef..a534755 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -33,6 +33,17 @@ def get_index_in_permuted(x, L):
   return x // ld4 + 4 * (x % ld4)
 
 
+def hash_pair(left: bytes, right: bytes, leaves: bool) -> bytes:
+  """Hashes two sibling nodes of a merkle tree into their parent.
+
+  Leaves are hashed differently from inner nodes, and the length of the
+  left sibling is part of the hash, so that neither an inner node nor
+  another way to cut the two siblings apart can pass for a leaf.
+  """
+  kind = b'leaf' if leaves else b'node'
+  return blake(kind + len(left).to_bytes(8, 'big') + left + right)
+
+
 def merkelize(L: List[FieldElement]) -> List[bytes]:
   """Creates a merkle-tree representation of the given list.
   
@@ -52,7 +63,7 @@ def merkelize(L: List[FieldElement]) -> List[bytes]:
     else:
       nodes.append(x.to_bytes())
   for i in range(len(L) - 1, 0, -1):
-    nodes[i] = blake(nodes[i * 2] + nodes[i * 2 + 1])
+    nodes[i] = hash_pair(nodes[i * 2], nodes[i * 2 + 1], i * 2 >= len(L))
   return nodes
 
 
@@ -76,11 +87,11 @@ def verify_branch(root, index, proof, output_as_int=False):
   #index += 2**len(proof)
   index += 2**len(proof) // 2
   v = proof[0]
-  for p in proof[1:]:
+  for level, p in enumerate(proof[1:]):
     if index % 2:
-      v = blake(p + v)
+      v = hash_pair(p, v, level == 0)
     else:
-      v = blake(v + p)
+      v = hash_pair(v, p, level == 0)
     index //= 2
   assert v == root
   return int.from_bytes(proof[0], 'big') if output_as_int else proof[0]
-- 
2.43.0


From 90ffe709d8243cc70c9199d7f47d3f067d46304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 12/33] fix: merkle proofs for positions outside the list are
 refused

---
 starks/merkle_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index a534755..a16f9b3 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -81,6 +81,7 @@ def mk_branch(tree: List[FieldElement], index: int) -> List[FieldElement]:
 
 def verify_branch(root, index, proof, output_as_int=False):
   """Verifies the proof and returns the leaf on the branch"""
+  assert 0 <= index < 2**len(proof) // 2
   index = get_index_in_permuted(index, 2**len(proof) // 2)
   # I think this is a bug. Should be 2**len(proof) // 2
   # But I think it's OK since we're only doing parity checks
-- 
2.43.0


From 95b69daad63e8dd7d15ff34356e68864e9040e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 13/33] fix: starks.stark can be imported again (the
 smooth-subgroup proximity proof it needs is restored)

---
 starks/fri.py   | 382 ++++++++++++++++++++++++------------------------
 starks/stark.py |   2 +-
 2 files changed, 192 insertions(+), 192 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 2f97d04..a4c4204 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -174,194 +174,194 @@ class AffineSubspaceFRI(object):
                              security_factor:int = 40) -> bool:
     raise NotImplementedError
 
-#class SmoothSubgroupFRI(object):
-#  """Implements Fast Reed Solomon Interactive Oracle Protocol
-#
-#  This class implements the FRI for a smooth multiplicative
-#  subgroup of a finite field. Recall that such a subgroup is
-#  of size 2^n and is a subgroup of the cyclic group of nonzero
-#  elements of the finite field.
-#
-#  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
-#  """
-#  def __init__(self, field):
-#    self.field = field
-#
-#  def generate_proximity_proof(self,
-#                               f: Poly,
-#                               root_of_unity: FieldElement,
-#                               maxdeg_plus_1: int,
-#                               exclude_multiples_of:int = 0,
-#                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
-#    """
-#    Generate an FRI proof that the polynomial that has the
-#    specified values at successive powers of the specified root
-#    of unity has a degree lower than maxdeg_plus_1
-#
-#    We use maxdeg+1 instead of maxdeg because it's more
-#    mathematically convenient in this case.
-#
-#    Note that if values is a n-degree polynomial, root_of_unity
-#    should be a n-th root of unity.
-#    """
-#    print("Generating proof. Degree %d" % maxdeg_plus_1)
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity)
-#    values = fft_solver.fft(f)
-#    # If the degree we are checking for is less than or equal
-#    # to 32, use the polynomial directly as a proof
-#    # TODO(rbharath): Why does this make sense?
-#    if maxdeg_plus_1 <= 16:
-#      print('Produced FRI proof')
-#      return [[x.to_bytes() for x in values]]
-#
-#    # Calculate the set of x coordinates
-#    xs = get_power_cycle(root_of_unity, self.field)
-#
-#    assert len(values) == len(xs)
-#
-#    # Put the values into a Merkle tree. This is the root that
-#    # the proof will be checked against. Note this is a list of
-#    # length 2*len(values) storing the complete merkle tree.
-#    m = merkelize(values)
-#
-#    # Select a pseudo-random x coordinate
-#    # This is the merkle-root of the polynomial.
-#    #special_x = int.from_bytes(m[1], 'big') % modulus
-#    special_x = self.field(m[1])
-#
-#    # Calculate the "column" at that x coordinate (see
-#    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
-#    # We calculate the column by Lagrange-interpolating each
-#    # row, and not directly from the polynomial, as this is more
-#    # efficient
-#    quarter_len = len(xs) // 4
-#    x_polys = multi_interp_4(self.field,
-#        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
-#        [[values[i + quarter_len * j]
-#          for j in range(4)]
-#        for i in range(quarter_len)])
-#    column = [p(special_x) for p in x_polys]
-#    m2 = merkelize(column)
-#
-#    # Pseudo-randomly select y indices to sample
-#    ys = get_pseudorandom_indices(
-#        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#    # Compute the Merkle branches for the values in the
-#    # polynomial and the column
-#    branches = []
-#    for y in ys:
-#      branches.append([mk_branch(m2, y)] +
-#                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
-#
-#    o = [m2[1], branches]
-#
-#    # Recurse...
-#    # Swapping the root of unity to get new polynomial
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
-#    column_poly = fft_solver.inv_fft(column)
-#    return [o] + self.generate_proximity_proof(
-#        column_poly,
-#        root_of_unity**4,
-#        maxdeg_plus_1 // 4,
-#        exclude_multiples_of=exclude_multiples_of)
-#
-#  def verify_proximity_proof(self,
-#                             proof: List[bytes],
-#                             merkle_root: bytes,
-#                             root_of_unity: FieldElement,
-#                             maxdeg_plus_1: int,
-#                             exclude_multiples_of:int = 0,
-#                             fri_spot_check_security_factor:int = 40) -> bool:
-#    """Verifies proximity of this function to this RS code."""
-#    # Calculate which root of unity we're working with
-#    testval = root_of_unity
-#    # roudeg is the power of the root of unity
-#    roudeg = 1
-#    while testval != 1:
-#      roudeg *= 2
-#      testval = (testval * testval)
-#
-#    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
-#    quartic_roots_of_unity = [
-#        1,
-#        root_of_unity**(roudeg // 4),
-#        root_of_unity**(roudeg // 2),
-#        root_of_unity**(roudeg * 3 // 4)
-#    ]
-#
-#    # Verify the recursive components of the proof
-#    for prf in proof[:-1]:
-#      root2, branches = prf
-#      print('Verifying degree <= %d' % maxdeg_plus_1)
-#
-#      # Calculate the pseudo-random x coordinate
-#      special_x = self.field(merkle_root)
-#
-#      # Calculate the pseudo-randomly sampled y indices
-#      ys = get_pseudorandom_indices(
-#          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#      # For each y coordinate, get the x coordinates on the row,
-#      # the values on the row, and the value at that y from the
-#      # column
-#      xcoords = []
-#      rows = []
-#      columnvals = []
-#      for i, y in enumerate(ys):
-#        # The x coordinates from the polynomial
-#        x1 = root_of_unity**y
-#        xcoords.append(
-#            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
-#
-#        # The values from the original polynomial
-#        row = [
-#            verify_branch(
-#                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
-#            for j, prf in zip(range(4), branches[i][1:])
-#        ]
-#        rows.append(row)
-#
-#        columnvals.append(
-#            verify_branch(root2, y, branches[i][0], output_as_int=True))
-#
-#      # Verify for each selected y coordinate that the four
-#      # points from the polynomial and the one point from the
-#      # column that are on that y coordinate are on the same deg
-#      # < 4 polynomial
-#      polys = multi_interp_4(self.field, xcoords, rows)
-#
-#      for p, c in zip(polys, columnvals):
-#        assert p(special_x) == c
-#
-#      # Update constants to check the next proof
-#      merkle_root = root2
-#      root_of_unity = root_of_unity**4
-#      maxdeg_plus_1 //= 4
-#      roudeg //= 4
-#
-#    # Verify the direct components of the proof
-#    data = [int.from_bytes(x, 'big') for x in proof[-1]]
-#    print('Verifying degree <= %d' % maxdeg_plus_1)
-#    assert maxdeg_plus_1 <= 16
-#
-#    # Check the Merkle root matches up
-#    mtree = merkelize(data)
-#    assert mtree[1] == merkle_root
-#
-#    # Check the degree of the data
-#    #powers = get_power_cycle(root_of_unity, modulus)
-#    powers = get_power_cycle(root_of_unity, self.field)
-#    if exclude_multiples_of:
-#      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
-#    else:
-#      pts = range(len(data))
-#
-#    poly = lagrange_interp(self.field,
-#            [powers[x] for x in pts[:maxdeg_plus_1]],
-#            [data[x] for x in pts[:maxdeg_plus_1]])
-#    for x in pts[maxdeg_plus_1:]:
-#      assert poly(powers[x]) == data[x]
-#
-#    print('FRI proof verified')
-#    return True
+class SmoothSubgroupFRI(object):
+  """Implements Fast Reed Solomon Interactive Oracle Protocol
+
+  This class implements the FRI for a smooth multiplicative
+  subgroup of a finite field. Recall that such a subgroup is
+  of size 2^n and is a subgroup of the cyclic group of nonzero
+  elements of the finite field.
+
+  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
+  """
+  def __init__(self, field):
+    self.field = field
+
+  def generate_proximity_proof(self,
+                               f: Poly,
+                               root_of_unity: FieldElement,
+                               maxdeg_plus_1: int,
+                               exclude_multiples_of:int = 0,
+                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
+    """
+    Generate an FRI proof that the polynomial that has the
+    specified values at successive powers of the specified root
+    of unity has a degree lower than maxdeg_plus_1
+
+    We use maxdeg+1 instead of maxdeg because it's more
+    mathematically convenient in this case.
+
+    Note that if values is a n-degree polynomial, root_of_unity
+    should be a n-th root of unity.
+    """
+    print("Generating proof. Degree %d" % maxdeg_plus_1)
+    fft_solver = NonBinaryFFT(self.field, root_of_unity)
+    values = fft_solver.fft(f)
+    # If the degree we are checking for is less than or equal
+    # to 32, use the polynomial directly as a proof
+    # TODO(rbharath): Why does this make sense?
+    if maxdeg_plus_1 <= 16:
+      print('Produced FRI proof')
+      return [[x.to_bytes() for x in values]]
+
+    # Calculate the set of x coordinates
+    xs = get_power_cycle(root_of_unity, self.field)
+
+    assert len(values) == len(xs)
+
+    # Put the values into a Merkle tree. This is the root that
+    # the proof will be checked against. Note this is a list of
+    # length 2*len(values) storing the complete merkle tree.
+    m = merkelize(values)
+
+    # Select a pseudo-random x coordinate
+    # This is the merkle-root of the polynomial.
+    #special_x = int.from_bytes(m[1], 'big') % modulus
+    special_x = self.field(m[1])
+
+    # Calculate the "column" at that x coordinate (see
+    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
+    # We calculate the column by Lagrange-interpolating each
+    # row, and not directly from the polynomial, as this is more
+    # efficient
+    quarter_len = len(xs) // 4
+    x_polys = multi_interp_4(self.field,
+        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
+        [[values[i + quarter_len * j]
+          for j in range(4)]
+        for i in range(quarter_len)])
+    column = [p(special_x) for p in x_polys]
+    m2 = merkelize(column)
+
+    # Pseudo-randomly select y indices to sample
+    ys = get_pseudorandom_indices(
+        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+    # Compute the Merkle branches for the values in the
+    # polynomial and the column
+    branches = []
+    for y in ys:
+      branches.append([mk_branch(m2, y)] +
+                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
+
+    o = [m2[1], branches]
+
+    # Recurse...
+    # Swapping the root of unity to get new polynomial
+    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
+    column_poly = fft_solver.inv_fft(column)
+    return [o] + self.generate_proximity_proof(
+        column_poly,
+        root_of_unity**4,
+        maxdeg_plus_1 // 4,
+        exclude_multiples_of=exclude_multiples_of)
+
+  def verify_proximity_proof(self,
+                             proof: List[bytes],
+                             merkle_root: bytes,
+                             root_of_unity: FieldElement,
+                             maxdeg_plus_1: int,
+                             exclude_multiples_of:int = 0,
+                             fri_spot_check_security_factor:int = 40) -> bool:
+    """Verifies proximity of this function to this RS code."""
+    # Calculate which root of unity we're working with
+    testval = root_of_unity
+    # roudeg is the power of the root of unity
+    roudeg = 1
+    while testval != 1:
+      roudeg *= 2
+      testval = (testval * testval)
+
+    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
+    quartic_roots_of_unity = [
+        1,
+        root_of_unity**(roudeg // 4),
+        root_of_unity**(roudeg // 2),
+        root_of_unity**(roudeg * 3 // 4)
+    ]
+
+    # Verify the recursive components of the proof
+    for prf in proof[:-1]:
+      root2, branches = prf
+      print('Verifying degree <= %d' % maxdeg_plus_1)
+
+      # Calculate the pseudo-random x coordinate
+      special_x = self.field(merkle_root)
+
+      # Calculate the pseudo-randomly sampled y indices
+      ys = get_pseudorandom_indices(
+          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+      # For each y coordinate, get the x coordinates on the row,
+      # the values on the row, and the value at that y from the
+      # column
+      xcoords = []
+      rows = []
+      columnvals = []
+      for i, y in enumerate(ys):
+        # The x coordinates from the polynomial
+        x1 = root_of_unity**y
+        xcoords.append(
+            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
+
+        # The values from the original polynomial
+        row = [
+            verify_branch(
+                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
+            for j, prf in zip(range(4), branches[i][1:])
+        ]
+        rows.append(row)
+
+        columnvals.append(
+            verify_branch(root2, y, branches[i][0], output_as_int=True))
+
+      # Verify for each selected y coordinate that the four
+      # points from the polynomial and the one point from the
+      # column that are on that y coordinate are on the same deg
+      # < 4 polynomial
+      polys = multi_interp_4(self.field, xcoords, rows)
+
+      for p, c in zip(polys, columnvals):
+        assert p(special_x) == c
+
+      # Update constants to check the next proof
+      merkle_root = root2
+      root_of_unity = root_of_unity**4
+      maxdeg_plus_1 //= 4
+      roudeg //= 4
+
+    # Verify the direct components of the proof
+    data = [int.from_bytes(x, 'big') for x in proof[-1]]
+    print('Verifying degree <= %d' % maxdeg_plus_1)
+    assert maxdeg_plus_1 <= 16
+
+    # Check the Merkle root matches up
+    mtree = merkelize(data)
+    assert mtree[1] == merkle_root
+
+    # Check the degree of the data
+    #powers = get_power_cycle(root_of_unity, modulus)
+    powers = get_power_cycle(root_of_unity, self.field)
+    if exclude_multiples_of:
+      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
+    else:
+      pts = range(len(data))
+
+    poly = lagrange_interp(self.field,
+            [powers[x] for x in pts[:maxdeg_plus_1]],
+            [data[x] for x in pts[:maxdeg_plus_1]])
+    for x in pts[maxdeg_plus_1:]:
+      assert poly(powers[x]) == data[x]
+
+    print('FRI proof verified')
+    return True
diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..ad9a2cc 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -10,7 +10,7 @@ from starks.merkle_tree import unpack_merkle_leaf
 from starks.polynomial import polynomials_over
 from starks.poly_utils import lagrange_interp_2
 from starks.fft import NonBinaryFFT
-from starks.fri import FRI
+from starks.fri import SmoothSubgroupFRI as FRI
 from starks.utils import generate_Xi_s
 from starks.utils import get_power_cycle
 from starks.utils import is_a_power_of_2
-- 
2.43.0


From 2254e5beaa527ceac9c10dd63cb45ad56d975098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 14/33] fix: computations that end in zero can be proved

---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index ad9a2cc..1cd3fcf 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -92,8 +92,8 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    interpolant = lagrange_interp_2(field, [1, last_step_position],
+        [input_value, output_dim])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From 4dda721f332a15457140719a912f7a5ccb3b2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 15/33] fix: the prover opens as many positions as the verifier
 checks

---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 1cd3fcf..4d8b19e 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -262,7 +262,8 @@ class STARK(object):
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
-    branches = self.compute_merkle_spot_checks(mtree, l_mtree)
+    branches = self.compute_merkle_spot_checks(
+        mtree, l_mtree, self.spot_check_security_factor)
 
     fri = FRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
-- 
2.43.0


From 539742ca969290baccbbf846461cc8dfddff3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 16/33] fix: computations of width ten and more can be proved

---
 starks/stark.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 4d8b19e..e50f15b 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -119,9 +119,8 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
     byte_list = [b'0x01', b'0x02', b'0x03', b'0x04']
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-  # Is the < 10 restriction needed
-  elif num < 10:
-    byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
+  else:
+    byte_list = [("0x%02d" % i).encode("UTF-8") for i in range(num)]
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
 
-- 
2.43.0


From 802c28e20e138d8c1a3c8db41c5acc6629e365ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 17/33] fix: the verifier links the low-degree-tested
 combination to the committed polynomials

---
 starks/stark.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index e50f15b..b787ce5 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -371,15 +371,16 @@ class STARK(object):
       interpolant = lagrange_interp_2(field, [1, self.last_step_position], [input_value, output_dim])
       assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0
 
-    # TODO(rbharath): I'm commenting this out for now, but I think commenting
-    # out this check breaks security guarantees!! To fix this, we need a way
-    # of getting the dimensionwise l's, which might necessitate passing more
-    # merkle branches into the original proof. Will refactor in a subsequent
-    # PR.
-    # Check correctness of the linear combination
-    #assert (l_of_x - d_of_x - k1 * p_of_x - k2 * p_of_x * x_to_the_steps -
-    #        k3 * b_of_x - k4 * b_of_x * x_to_the_steps) % modulus == 0
-
+    # Check correctness of the linear combination, joined over the dimensions
+    # as in compute_pseudorandom_linear_combination
+    power = self.G2**(self.steps * (self.precision - 1))
+    l_ks = get_pseudorandom_ks(m_root, width)
+    expected_l_of_x = field(0)
+    for dim in range(width):
+      l_dim = (d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * power +
+               b_of_x[dim] * k3 + b_of_x[dim] * k4 * power)
+      expected_l_of_x = expected_l_of_x + l_dim + l_dim * l_ks[dim] * power
+    assert l_of_x == expected_l_of_x
 
   # TODO(rbharath): This method is poorly structured since it
   # computes spot checks for both the mtree and the ltree
-- 
2.43.0


From a70d2abc8fdbd16b4252146cb4f1d0529d1f5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 18/33] fix: computations with constant registers can be proved

---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index b787ce5..cb5b89f 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -50,7 +50,8 @@ def construct_constraint_polynomials(step_polys: List[MultiVarPoly], trace_polys
   # Convert trace polys to multidimensional polys by evaluating
   constraint_polys = []
   for next_trace, step_poly in zip(next_traces, step_polys):
-    constraint_poly = next_trace - step_poly(trace_polys)
+    # Constant traces and rules evaluate to field elements, not polynomials
+    constraint_poly = polysOver([0]) + next_trace - step_poly(trace_polys)
     constraint_polys.append(constraint_poly)
   return constraint_polys
 
-- 
2.43.0


From c24753eac76a017347e1afc2c8199abd9fb1ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:32 +0000
Subject: [PATCH 19/33] fix: constructors are remembered by the values of all
 their parameters, one construction at a time

---
 starks/numbertype.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..00ced16 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -1,9 +1,25 @@
 """
 These classes help speed up field computations by caching and introduce some useful types.
 """
+import inspect
+import threading
 from typing import List
 
 
+# Constructors build on each other, hence one reentrant lock for all of them
+memoizeLock = threading.RLock()
+
+
+def cacheKey(arg):
+  """Something hashable that identifies the argument of a constructor."""
+  try:
+    hash(arg)
+    return arg
+  except TypeError:
+    # Polynomials do not hash; their class and their text identify them
+    return (type(arg), repr(arg))
+
+
 def memoize(f):
   """Decorator to memoize a function. 
 
@@ -11,12 +27,18 @@ def memoize(f):
   never creating two separate instances of a number class.
   """
   cache = {}
+  signature = inspect.signature(f)
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
-    if argTuple not in cache:
-      cache[argTuple] = f(*args, **kwargs)
-    return cache[argTuple]
+    # The same parameters make the same key, whether given by position, by
+    # name or by default
+    bound = signature.bind(*args, **kwargs)
+    bound.apply_defaults()
+    argTuple = tuple(cacheKey(arg) for arg in bound.arguments.values())
+    with memoizeLock:
+      if argTuple not in cache:
+        cache[argTuple] = f(*args, **kwargs)
+      return cache[argTuple]
 
   memoizedFunction.cache = cache
   return memoizedFunction
-- 
2.43.0


From b379dd905eb7889828b0e6ff5f695a1e750381af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 20/33] fix: subtracting floating-point numbers no longer
 changes the sign of the right operand

---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From 4f0370d27205e2fac3c2e3969b2a3bd1ac06e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 21/33] fix: x is not a primitive polynomial

---
 starks/poly_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..a9ecc11 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -230,6 +230,9 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   Zp = IntegersModP(modulus)
   polysOver = polynomials_over(Zp)
   x = polysOver([0, 1])
+  # Zero generates nothing (irred_poly is x)
+  if (x % irred_poly).is_zero():
+    return False
   # This is 1 right?
   one = polysOver([1])
   for i, factor in enumerate(prime_factors):
-- 
2.43.0


From fad92611fe1c8b84cf300dff3493f8494a490706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:25 +0000
Subject: [PATCH 22/33] fix: a mapping that merges vertices is no isomorphism

---
 misc/zero_knowledge.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index f690b57..6dbd610 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -134,7 +134,13 @@ class ZKVerifier(object):
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
     is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))
-    return is_valid_isomorphism
+    if not is_valid_isomorphism:
+      return False
+
+    # A mapping that merges vertices of H could map it onto both graphs
+    # although they are not isomorphic.
+    vertices = {v for e in H for v in e}
+    return len({f(v) for v in vertices}) == len(vertices)
 
 
 def run_protocol(G1, G2, isomorphism):
-- 
2.43.0


From 7a3ec9fb55cb95d3a4dccf1e90ad15ea9189d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:25 +0000
Subject: [PATCH 23/33] fix: a negative number is no colour

---
 misc/zkp_3_coloring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 256d97d..2cdb336 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -83,8 +83,9 @@ class ZK3ColVerifier(object):
       revealed_colors.append(trueColor)
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
-      # two bits can hold a fourth value, which is no colour
-      if trueColor > 2:
+      # two bits can hold a fourth value, which is no colour, and forged bits
+      # can decode to anything
+      if not 0 <= trueColor <= 2:
         return False
 
     return revealed_colors[0] != revealed_colors[1]
-- 
2.43.0


From e661dbf1eb78c48dee3966d619f771df8731d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 24/33] fix: Merkle branches in a proof must have the depth of
 the tree

---
 starks/fri.py   | 7 +++++++
 starks/stark.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/starks/fri.py b/starks/fri.py
index a4c4204..ae09b6e 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -309,6 +309,12 @@ class SmoothSubgroupFRI(object):
       rows = []
       columnvals = []
       for i, y in enumerate(ys):
+        # The trees have one leaf per point: a longer or shorter branch would
+        # let a prover open another value at the same point
+        assert 2**len(branches[i][0]) == 2 * (roudeg // 4)
+        for branch in branches[i][1:]:
+          assert 2**len(branch) == 2 * roudeg
+
         # The x coordinates from the polynomial
         x1 = root_of_unity**y
         xcoords.append(
@@ -344,6 +350,7 @@ class SmoothSubgroupFRI(object):
     data = [int.from_bytes(x, 'big') for x in proof[-1]]
     print('Verifying degree <= %d' % maxdeg_plus_1)
     assert maxdeg_plus_1 <= 16
+    assert len(data) == roudeg
 
     # Check the Merkle root matches up
     mtree = merkelize(data)
diff --git a/starks/stark.py b/starks/stark.py
index cb5b89f..bc43487 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -326,6 +326,10 @@ class STARK(object):
     m_root, l_root, branches, fri_proof = proof
     x = self.G2**pos
     x_to_the_steps = x**self.steps
+    # The trees have one leaf per position: a longer or shorter branch would
+    # let a prover open another value at the same position
+    for branch in branches[i * 3:i * 3 + 3]:
+      assert 2**len(branch) == 2 * self.precision
     # Recall m is the merkle tree of the raw polynomials, and l
     # is the merkle tree of the pseudorandom combination
     # polynomial. Leaf node from m[pos]
-- 
2.43.0


From c3bb3ae9151f7384821bd75cfc72d5cbef2c56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 25/33] fix: spot check positions depend on both Merkle trees

---
 starks/stark.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index bc43487..3b9021e 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -307,7 +307,7 @@ class STARK(object):
     ## Performs the spot checks
     samples = self.spot_check_security_factor
     positions = get_pseudorandom_indices(
-        l_root, self.precision, samples,
+        blake(m_root + l_root), self.precision, samples,
         exclude_multiples_of=self.extension_factor)
     ks = get_pseudorandom_ks(m_root, 4)
     for i, pos in enumerate(positions):
@@ -396,10 +396,11 @@ class STARK(object):
   def compute_merkle_spot_checks(self, mtree, l_mtree, samples=80):
     """Computes pseudorandom spot checks of Merkle tree."""
     # Do some spot checks of the Merkle tree at pseudo-random
-    # coordinates, excluding multiples of `extension_factor`
+    # coordinates, excluding multiples of `extension_factor`. They depend on
+    # both trees, so that neither can be chosen with the positions known
     branches = []
     positions = get_pseudorandom_indices(
-        l_mtree[1], self.precision, samples, exclude_multiples_of=self.extension_factor)
+        blake(mtree[1] + l_mtree[1]), self.precision, samples, exclude_multiples_of=self.extension_factor)
     for pos in positions:
       branches.append(mk_branch(mtree, pos))
       branches.append(mk_branch(mtree, (pos + self.extension_factor) % self.precision))
-- 
2.43.0


From 7c8ba596f3d420e6b8bbd26b82a815b03ccf520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 26/33] fix: sampled rows of a proximity proof depend on the
 values as well

---
 starks/fri.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index ae09b6e..58d4418 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -2,6 +2,7 @@ import math
 import hashlib
 from random import Random
 from typing import List
+from starks.merkle_tree import blake
 from starks.merkle_tree import merkelize
 from starks.merkle_tree import mk_branch
 from starks.merkle_tree import verify_branch
@@ -243,9 +244,10 @@ class SmoothSubgroupFRI(object):
     column = [p(special_x) for p in x_polys]
     m2 = merkelize(column)
 
-    # Pseudo-randomly select y indices to sample
+    # Pseudo-randomly select y indices to sample. They depend on the values
+    # and on the column, so that neither can be chosen with the indices known
     ys = get_pseudorandom_indices(
-        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+        blake(m[1] + m2[1]), len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
 
     # Compute the Merkle branches for the values in the
     # polynomial and the column
@@ -300,7 +302,7 @@ class SmoothSubgroupFRI(object):
 
       # Calculate the pseudo-randomly sampled y indices
       ys = get_pseudorandom_indices(
-          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+          blake(merkle_root + root2), roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
 
       # For each y coordinate, get the x coordinates on the row,
       # the values on the row, and the value at that y from the
-- 
2.43.0


From f0ac8b7502dc5b7ab2c0d369dc9d04034508721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:21 +0000
Subject: [PATCH 27/33] fix: the block a transaction goes into is counted, not
 read from the last block

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 22d909d..fadae65 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -162,7 +162,8 @@ class Blockchain:
           'amount': amount,
       })
 
-      return self.last_block['index'] + 1
+      # An adopted block may say anything about its own index
+      return len(self.chain) + 1
 
   @property
   def last_block(self):
-- 
2.43.0


From de9fa8281da408cc20193cc7d8081d9713fa009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:21 +0000
Subject: [PATCH 28/33] fix: deeply nested JSON is refused instead of failing
 requests

---
 misc/blockchain.py     | 22 +++++++++++++++++++---
 misc/run_blockchain.py | 13 +++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index fadae65..09bbb3e 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -78,6 +78,20 @@ class Blockchain:
 
     return True
 
+  @staticmethod
+  def can_be_served(value):
+    """
+    Whether something received can become part of our replies: not when it is
+    nested so deeply that it could be read, but not be written inside a reply
+    """
+    for _ in range(100):
+      value = [value]
+    try:
+      json.dumps(value)
+    except RecursionError:
+      return False
+    return True
+
   def resolve_conflicts(self):
     """
     This is our consensus algorithm, it resolves conflicts
@@ -105,12 +119,14 @@ class Blockchain:
           # Count the blocks ourselves, the peer may claim any length
           length = len(chain)
 
-          # Check if the length is longer and the chain is valid
-          if length > max_length and self.valid_chain(chain):
+          # Check if the length is longer and the chain is valid, and that we
+          # could pass it on
+          if (length > max_length and self.can_be_served(chain) and
+              self.valid_chain(chain)):
             max_length = length
             new_chain = chain
       except (requests.RequestException, ValueError, KeyError, TypeError,
-              IndexError, AttributeError):
+              IndexError, AttributeError, RecursionError):
         continue
 
     # Replace our chain if we discovered a new, valid chain longer than ours
diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index abb9bbd..347864d 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -45,13 +45,19 @@ def mine():
 
 @app.route('/transactions/new', methods=['POST'])
 def new_transaction():
-  values = request.get_json()
+  try:
+    values = request.get_json()
+  except RecursionError:
+    return 'Nested too deeply', 400
 
   # Check that the required fields are in the POST'ed data
   required = ['sender', 'recipient', 'amount']
   if not isinstance(values, dict) or not all(k in values for k in required):
     return 'Missing values', 400
 
+  if not blockchain.can_be_served(values):
+    return 'Nested too deeply', 400
+
   # Create a new Transaction
   index = blockchain.new_transaction(values['sender'], values['recipient'],
                                      values['amount'])
@@ -72,7 +78,10 @@ def full_chain():
 
 @app.route('/nodes/register', methods=['POST'])
 def register_nodes():
-  values = request.get_json()
+  try:
+    values = request.get_json()
+  except RecursionError:
+    return 'Nested too deeply', 400
 
   nodes = values.get('nodes') if isinstance(values, dict) else None
   if not isinstance(nodes, list):
-- 
2.43.0


From fb8a1057e99aa2eca2af8f8a60625fc268ca2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:21 +0000
Subject: [PATCH 29/33] fix: numbers that JSON cannot express are refused

---
 misc/blockchain.py     | 7 ++++---
 misc/run_blockchain.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 09bbb3e..838860c 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -82,13 +82,14 @@ class Blockchain:
   def can_be_served(value):
     """
     Whether something received can become part of our replies: not when it is
-    nested so deeply that it could be read, but not be written inside a reply
+    nested so deeply that it could be read, but not be written inside a reply,
+    and not when it holds numbers that JSON has no way to write (1e999)
     """
     for _ in range(100):
       value = [value]
     try:
-      json.dumps(value)
-    except RecursionError:
+      json.dumps(value, allow_nan=False)
+    except (RecursionError, ValueError):
       return False
     return True
 
diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 347864d..be6cc66 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -56,7 +56,7 @@ def new_transaction():
     return 'Missing values', 400
 
   if not blockchain.can_be_served(values):
-    return 'Nested too deeply', 400
+    return 'Nested too deeply, or a number out of range', 400
 
   # Create a new Transaction
   index = blockchain.new_transaction(values['sender'], values['recipient'],
-- 
2.43.0


From 435768d09129f60d51df34e226eae9675a4ee1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:38 +0000
Subject: [PATCH 30/33] fix: proximity proofs hold for every bound and number
 of samples

---
 starks/fri.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 58d4418..7d50206 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -265,8 +265,10 @@ class SmoothSubgroupFRI(object):
     return [o] + self.generate_proximity_proof(
         column_poly,
         root_of_unity**4,
-        maxdeg_plus_1 // 4,
-        exclude_multiples_of=exclude_multiples_of)
+        # A quarter of the degree, rounded up
+        (maxdeg_plus_1 + 3) // 4,
+        exclude_multiples_of=exclude_multiples_of,
+        fri_spot_check_security_factor=fri_spot_check_security_factor)
 
   def verify_proximity_proof(self,
                              proof: List[bytes],
@@ -345,7 +347,7 @@ class SmoothSubgroupFRI(object):
       # Update constants to check the next proof
       merkle_root = root2
       root_of_unity = root_of_unity**4
-      maxdeg_plus_1 //= 4
+      maxdeg_plus_1 = (maxdeg_plus_1 + 3) // 4
       roudeg //= 4
 
     # Verify the direct components of the proof
-- 
2.43.0


From cf6c0e01b10749633bca72c50efd307383966f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:16 +0000
Subject: [PATCH 31/33] fix: the STARK combination bounds trace and boundary
 polynomials by the number of steps

---
 starks/stark.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 3b9021e..e7aeb3d 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -127,7 +127,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
 
 # root_of_unity = params.G2
 # rou_deg = params.precision
-def compute_pseudorandom_linear_combination_1d(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], root_of_unity: FieldElement, steps: int, root_of_unity_degree: int) -> List[Vector]:
+def compute_pseudorandom_linear_combination_1d(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], steps: int, degree: int) -> List[Vector]:
   """Computes the pseudorandom linear combination for 1-d slice of poly.
 
   A FRI proofs of low degree for a polynomial takes space.
@@ -138,9 +138,11 @@ def compute_pseudorandom_linear_combination_1d(entropy: bytes, trace_polys: List
   low.
   """
   # Based on the hashes of P, D and B, we select a random
-  # linear combination of P * x^steps, P, B * x^steps, B and
+  # linear combination of P * x^shift, P, B * x^shift, B and
   # D, and prove the low-degreeness of that, instead of
-  # proving the low-degreeness of P, B and D separately
+  # proving the low-degreeness of P, B and D separately. The
+  # bound is steps * degree, so with shift = steps * (degree - 1)
+  # P and B are shown to be of degree less than steps.
   k1, k2, k3, k4 = get_pseudorandom_ks(entropy, 4)
   # TODO(rbharath): This isn't general, but fix later
   #[p_evaluations, d_evaluations, b_evaluations] = polys
@@ -148,20 +150,17 @@ def compute_pseudorandom_linear_combination_1d(entropy: bytes, trace_polys: List
   # Compute the linear combination. We don't even both
   # calculating it in coefficient form; we just compute the
   # evaluations
-  G2_to_the_steps = root_of_unity**steps
-  powers = [1]
-  for i in range(1, root_of_unity_degree):
-    powers.append(powers[-1] * G2_to_the_steps)
+  shift = [0] * (steps * (degree - 1))
 
   l_polys = []
-  # TODO(rbharath): Is this correct? i is the last value after
-  # the for loop...
   for (trace_poly, remainder_poly, boundary_poly) in zip(trace_polys, remainder_polys, boundary_polys):
-    l_poly = remainder_poly + trace_poly * k1 + trace_poly * k2 * powers[i] + boundary_poly * k3 + boundary_poly * k4 * powers[i]
+    shifted_trace = trace_poly.__class__(shift + trace_poly.coefficients)
+    shifted_boundary = boundary_poly.__class__(shift + boundary_poly.coefficients)
+    l_poly = remainder_poly + trace_poly * k1 + shifted_trace * k2 + boundary_poly * k3 + shifted_boundary * k4
     l_polys.append(l_poly)
   return l_polys
 
-def compute_pseudorandom_linear_combination(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], field: Field, root_of_unity: FieldElement, root_of_unity_degree: int, steps: int, width: int) -> Poly:
+def compute_pseudorandom_linear_combination(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], field: Field, root_of_unity: FieldElement, root_of_unity_degree: int, steps: int, width: int, degree: int) -> Poly:
   """Computes a pseudorandom linear combination of polys
 
   A deterministic procedure for pseudorandomly combining dimensions
@@ -170,7 +169,7 @@ def compute_pseudorandom_linear_combination(entropy: bytes, trace_polys: List[Po
   powers = [1]
   for i in range(1, root_of_unity_degree):
     powers.append(powers[-1] * G2_to_the_steps)
-  l_polys = compute_pseudorandom_linear_combination_1d(entropy, trace_polys, remainder_polys, boundary_polys, root_of_unity, steps, root_of_unity_degree)
+  l_polys = compute_pseudorandom_linear_combination_1d(entropy, trace_polys, remainder_polys, boundary_polys, steps, degree)
   l_ks = get_pseudorandom_ks(entropy, width)
   l_joint_poly = sum([l_poly + l_poly * l_k * powers[i] for (l_poly, l_k) in zip(l_polys, l_ks)])
   print('Computed random linear combination')
@@ -258,7 +257,7 @@ class STARK(object):
 
     l_poly = compute_pseudorandom_linear_combination(
         mtree[1], trace_polys, remainder_polys, boundary_polys, self.field,
-        self.G2, self.precision, self.steps, self.width)
+        self.G2, self.precision, self.steps, self.width, self.get_degree())
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
@@ -325,7 +324,7 @@ class STARK(object):
     k1, k2, k3, k4 = ks
     m_root, l_root, branches, fri_proof = proof
     x = self.G2**pos
-    x_to_the_steps = x**self.steps
+    x_shift = x**(self.steps * (self.get_degree() - 1))
     # The trees have one leaf per position: a longer or shorter branch would
     # let a prover open another value at the same position
     for branch in branches[i * 3:i * 3 + 3]:
@@ -382,8 +381,8 @@ class STARK(object):
     l_ks = get_pseudorandom_ks(m_root, width)
     expected_l_of_x = field(0)
     for dim in range(width):
-      l_dim = (d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * power +
-               b_of_x[dim] * k3 + b_of_x[dim] * k4 * power)
+      l_dim = (d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * x_shift +
+               b_of_x[dim] * k3 + b_of_x[dim] * k4 * x_shift)
       expected_l_of_x = expected_l_of_x + l_dim + l_dim * l_ks[dim] * power
     assert l_of_x == expected_l_of_x
 
-- 
2.43.0


From 45dc221f716a827301d16188b32495647faeccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:16 +0000
Subject: [PATCH 32/33] fix: solving linear equations leaves the caller's
 matrix alone

---
 starks/poly_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index a9ecc11..5084a11 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -97,6 +97,8 @@ def construct_affine_vanishing_polynomial_Moore(field: Field, aff: AffineSpace)
   return polysOver(kernel)
 
 def gauss(M, row, field):
+  # The rows are reduced in place, but not those of the caller
+  M = [list(equation) for equation in M]
   for i in range(row):
     # Search for maximum in this column
     maxEl = M[i][i]
-- 
2.43.0


From 7e7ea23be04df5900d7eafb3f9b347ecab8cf034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:37 +0000
Subject: [PATCH 33/33] fix: polynomials are ordered by the values of their
 coefficients

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 5084a11..e0c0247 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -147,7 +147,7 @@ def max(a, b):
     return 0
   else:
     for i in range(aD+1):
-      if a.coefficients[aD-i] is not b.coefficients[aD-i]:
+      if a.coefficients[aD-i] != b.coefficients[aD-i]:
         if str(a.coefficients[aD-i])[0] == "1":
           return 1
         else:
-- 
2.43.0

