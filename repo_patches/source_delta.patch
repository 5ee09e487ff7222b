From 38eddc2aff3cf181dc2b0c23d3a41583bffe7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 1/6] fix: price virtual-balance connectors on the balance
 before the deposit

The virtual balance does not include the incoming amount yet, so subtracting it again
made conversions execute at another price than the one quoted by getReturn.
---
 contracts/converter/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 197ff2d..2f7b997 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -448,7 +448,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
 
         token_supply = flexible_token.totalSupply()
         connector_balance = self.getConnectorBalance(connector_token)
-        if from_conversion:
+        # the deposit has already arrived in the actual balance, but not in the virtual one
+        if from_conversion and not connector.is_virtual_balance_enabled.get():
             connector_balance -= amount
 
         calculated_amount = formula.calculate_purchase_return(
@@ -502,7 +503,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
 
         from_connector_balance = self.getConnectorBalance(from_token)
-        if from_conversion:
+        # the deposit has already arrived in the actual balance, but not in the virtual one
+        if from_conversion and not from_connector.is_virtual_balance_enabled.get():
             from_connector_balance -= amount
         to_connector_balance = self.getConnectorBalance(to_token)
 
-- 
2.43.0


From 7b3423c66f4d6cb7a24ecbcb9379adc29c57f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 2/6] fix: let the manager fund the connectors of an inactive
 converter

tokenFallback compared the sender with the bound method getManager instead of its result.
---
 contracts/converter/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 2f7b997..52c5772 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -228,7 +228,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_positive_value(_value)
         from_token = self.msg.sender
 
-        if (_from == self.getOwner() or _from == self.getManager) \
+        if (_from == self.getOwner() or _from == self.getManager()) \
                 and self._connectors[from_token].is_set.get() \
                 and not self._is_active():
             # If the token sender is the owner and sent token is a connector token, receives tokens
-- 
2.43.0


From d1cfcfc9fd14598649aee5ade22608c61c3f098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 3/6] fix: make the deployer the first manager of a converter

Converter.on_install never ran Managed.on_install, leaving manager and new manager unset.
---
 contracts/converter/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 52c5772..aaf4b02 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -194,6 +194,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_valid_address(_registry)
         self._require_valid_max_conversion_fee(_maxConversionFee)
         FlexibleTokenController.on_install(self, _token)
+        Managed.on_install(self)
 
         self._allow_registry_update.set(True)
         self._registry.set(_registry)
-- 
2.43.0


From 101a594d3bf7d85aca8e675357996f412d6ef525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 4/6] fix: make the network itself enforce the minimum return

The received amount was never compared with minReturn; the guarantee rested entirely on
whatever SCORE owns the flexible token named in the caller's path.
---
 contracts/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/network/network.py b/contracts/network/network.py
index d4d2033..53cfe2a 100644
--- a/contracts/network/network.py
+++ b/contracts/network/network.py
@@ -241,6 +241,7 @@ class Network(TokenHolder):
         :return: tokens issued in return
         """
         (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
+        require(amount >= min_return, 'returning amount less than minimum requested amount')
 
         if self._icx_tokens[to_token_address]:
             icx_token = self.create_interface_score(to_token_address, IcxToken)
-- 
2.43.0


From d3f73e7585bf481aa3fef5b67bd4566d78aab205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 5/6] fix: place sources by their path relative to the
 contracts location

Replacing the location's text inside the file path misplaces files when the
location ends with a separator, is '.', or recurs further down the path.
---
 contract_generator/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index bfa65df..e2fe5ab 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -75,7 +75,7 @@ class Builder:
                 if filename == 'package.json':
                     new_file_path = path.join(contract.name, filename)
                 else:
-                    new_file_path = cur_file_path.replace(self._contracts_path, str(contract.name))
+                    new_file_path = path.join(contract.name, path.relpath(cur_file_path, self._contracts_path))
                 path_tuple = (cur_file_path, new_file_path)
                 contract.path_list.append(path_tuple)
 
-- 
2.43.0


From bd8ecb88228717ce2b20ae1470a6ed2dc1b19267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 6/6] fix: take NOTICE from the project, not from the working
 directory

Building from any other directory failed for want of NOTICE, or shipped
whatever file of that name lay there.
---
 contract_generator/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index e2fe5ab..db2c2b4 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -99,5 +99,6 @@ class Builder:
         :param contract: contact in namedtuple
         :return: None
         """
-        notice_path_tuple = 'NOTICE', path.join(contract.name, 'NOTICE')
+        project_path = path.dirname(path.dirname(path.abspath(__file__)))
+        notice_path_tuple = path.join(project_path, 'NOTICE'), path.join(contract.name, 'NOTICE')
         contract.path_list.append(notice_path_tuple)
-- 
2.43.0

