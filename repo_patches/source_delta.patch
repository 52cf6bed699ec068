From 21fcd78f38c14226ed645462e0b58acdf4450e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 01/41] fix: erase only the changed record's entry from key
 indexes

Setting or erasing one record erased every index entry that shared its old
value, so other records with that value dropped out of lookups, requests and
sorted iteration.
---
 Source/Vault.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 5dbedd0..a302157 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -78,7 +78,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordHashMap->Erase((*pairIt).first);
+                TtoVaultRecordHashMap->Erase(pairIt);
                 break;
             }
         }
@@ -99,7 +99,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordMap->Erase((*pairIt).first);
+                TtoVaultRecordMap->Erase(pairIt);
                 break;
             }
         }
@@ -493,7 +493,7 @@ namespace mvlt
                 {
                     if ((*pairIt).second == record)
                     {
-                        TtoVaultRecordMap->Erase((*pairIt).first);
+                        TtoVaultRecordMap->Erase(pairIt);
                         break;
                     }
                 }
-- 
2.43.0


From 44f709cfd8573357aa55d4966212c8b70086a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 02/41] fix: let a unique key take a new value no other record
 holds

The duplicate check looked up the record's old value instead of the new one,
so every change of a unique key was refused.
---
 Source/Vault.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a302157..9160f2c 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -60,18 +60,22 @@ namespace mvlt
         T oldData{};
         dataRecord->GetData(key, oldData);
 
-        // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
-        auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
-
-        // Check if it is unique key and try to set duplicate data
-        if (!TtoVaultRecordHashMap->IsMultiContainer() && FirstAndLastIteratorsWithKeyOnHashMap.first != TtoVaultRecordHashMap->End())
+        // Check if it is unique key and try to set data that is already used by another record
+        if (!TtoVaultRecordHashMap->IsMultiContainer())
         {
-            res.IsOperationSuccess = false;
-            res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
+            auto sameDataIt = TtoVaultRecordHashMap->Find(data);
+            if (sameDataIt != TtoVaultRecordHashMap->End() && (*sameDataIt).second != dataRecord)
+            {
+                res.IsOperationSuccess = false;
+                res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
 
-            return res;
+                return res;
+            }
         }
 
+        // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
+        auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
+
         // Iterate over all data records with oldData key
         for (auto& pairIt = FirstAndLastIteratorsWithKeyOnHashMap.first; pairIt != FirstAndLastIteratorsWithKeyOnHashMap.second; ++pairIt)
         {
-- 
2.43.0


From 022ffdb5a3545ada0feac9e37b599a27262eb757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 03/41] fix: leave the vault untouched when a unique key
 without function is refused

The refused key's containers stayed inside the vault, so printing a record
called an empty function and adding the key later leaked them.
---
 Source/Vault.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 9160f2c..624f8f6 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -348,6 +348,14 @@ namespace mvlt
             return res;
         }
 
+        // If it is unique key, no lamda provided and vault not empty
+        if (isUniqueKey && isUniqueKeyWithoutLambda && !RecordsSet.empty())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
+            return res;
+        }
+
         // Create new hash map to store data with template T key
         UnorderedMap<T, VaultRecord*>* TtoVaultRecordHashMap = new UnorderedMap<T, VaultRecord*>(!isUniqueKey);
         VaultHashMapStructure.SetData(key, TtoVaultRecordHashMap, [](const void* ptr)
@@ -367,14 +375,6 @@ namespace mvlt
         // Add new data to record set
         if (isUniqueKey)
         {
-            // If no lamda provided and vault not empty
-            if (isUniqueKeyWithoutLambda && !RecordsSet.empty())
-            {
-                res.IsOperationSuccess = false;
-                res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
-                return res;
-            }
-
             std::size_t counter = 0;
             std::vector<T> cachedData;
             bool isCorrectKey = true;
-- 
2.43.0


From d5bafd88cb0d9e5f6253c3739562306766455bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 04/41] fix: index in live sets the unique values their records
 really got

Adding a unique key called the value function again for every live set, with
the set's own record order, so a set's index disagreed with its records.
---
 Source/Vault.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 624f8f6..4185966 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -382,7 +382,12 @@ namespace mvlt
             // Cycle for check uniqueKeyFunction validity
             for (VaultRecord* recordsSetIt : RecordsSet)
             {
-                T value = uniqueKeyFunction(counter, VaultRecordRef(recordsSetIt, this));
+                T value{};
+                // VaultRecordSet must index the value that was already set by its parent Vault
+                if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
+                    value = uniqueKeyFunction(counter, VaultRecordRef(recordsSetIt, this));
+                else
+                    recordsSetIt->GetData(key, value);
                 ++counter;
 
                 auto emplacePair = TtoVaultRecordHashMap->Emplace(value, recordsSetIt);
-- 
2.43.0


From 63b44d7d4a49839657850e407549fb0b94f6a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 05/41] fix: keep key uniqueness and current defaults in copied
 vaults

A copied vault turned unique keys into ordinary ones and went back to the
default values given when the keys were added.
---
 Source/Vault.cpp | 6 ++++++
 Source/Vault.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8ee1abb..58b347f 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -198,6 +198,9 @@ namespace mvlt
         for (auto& keyCopierIt : other.VaultKeyCopiers)
             keyCopierIt.second(this);
 
+        // Copy current default values
+        RecordTemplate = other.RecordTemplate;
+
         // Set proper key order
         KeysOrder = other.KeysOrder;
 
@@ -235,6 +238,9 @@ namespace mvlt
             for (auto& keyCopierIt : other.VaultKeyCopiers)
                 keyCopierIt.second(this);
 
+            // Copy current default values
+            RecordTemplate = other.RecordTemplate;
+
             // Set proper key order
             KeysOrder = other.KeysOrder;
 
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 4185966..6848ec5 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -527,7 +527,7 @@ namespace mvlt
         
         VaultKeyCopiers.emplace(key, [=](Vault* vaultRecordSet)
         {
-            vaultRecordSet->AddKey(key, defaultKeyValue);
+            vaultRecordSet->AddKey(key, defaultKeyValue, isUniqueKey, false, std::function<T(const std::size_t& counter, const VaultRecordRef& ref)>());
         });
 
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-- 
2.43.0


From c624e9fceb2b4e5a3c9d4b9cb461391fb6165074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 06/41] fix: report the parent vault's current key default from
 a record set

A set answered with the default captured when it was filled, which went stale
after the key was updated.
---
 Source/VaultRecordSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 36067e3..c1c2173 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -73,7 +73,7 @@ namespace mvlt
         if (GetIsParentVaultValid())
         {
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-            res = Vault::GetKeyValue(key, defaultKeyValue);
+            res = ParentVault->GetKeyValue(key, defaultKeyValue);
         }
         else
         {
-- 
2.43.0


From 834669da032c6eab5a3615a7fcafa60dc20f4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 07/41] fix: hand live record sets over to the vault their data
 moved to

After a vault was moved, its sets still pointed at the moved-from vault and
used it after it was destroyed.
---
 Source/Vault.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 58b347f..da9c63a 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -286,6 +286,10 @@ namespace mvlt
         InvalidFileRecords = std::move(other.InvalidFileRecords);
         RecordsSet = std::move(other.RecordsSet);
         RecordSetsSet = std::move(other.RecordSetsSet);
+
+        // Sets depend on this Vault now
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->ParentVault = this;
     }
 
     Vault& Vault::operator=(Vault&& other) noexcept
@@ -314,6 +318,10 @@ namespace mvlt
             InvalidFileRecords = std::move(other.InvalidFileRecords);
             RecordsSet = std::move(other.RecordsSet);
             RecordSetsSet = std::move(other.RecordSetsSet);
+
+            // Sets depend on this Vault now
+            for (VaultRecordSet* set : RecordSetsSet)
+                set->ParentVault = this;
         }
 
         return *this;
-- 
2.43.0


From d4a1450b4c066b13d65209f008f99081fdd60fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 08/41] fix: let a record ref find its vault through its record

A ref remembered the vault or set that created it, so using the ref after that
vault was destroyed or moved, or after that set was destroyed, used freed
memory; refs handed out by a set's sorted iteration and predicates changed only
the set's index, and were refused as belonging to another vault.
---
 Source/Vault.cpp          | 12 +++++++++
 Source/VaultRecord.h      |  3 +++
 Source/VaultRecordRef.cpp | 51 +++++++++++++++++++++------------------
 Source/VaultRecordRef.h   |  3 ---
 Source/VaultRecordRef.hpp | 12 ++++-----
 Source/VaultRecordSet.cpp |  2 +-
 Source/VaultRecordSet.hpp |  3 ---
 7 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index da9c63a..c2ba8f2 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -68,6 +68,7 @@ namespace mvlt
 
             // Record to set to it data from file and store in Vault
             VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+            newRecord->ParentVault = this;
 
             bool isCorrectRecordInFile = false;
 
@@ -211,6 +212,7 @@ namespace mvlt
         {
             // Allocate space to new record and copy data to it
             VaultRecord* newRecord = new VaultRecord(*recordPtr);
+            newRecord->ParentVault = this;
             
             // Add new record to set
             RecordsSet.emplace(newRecord);
@@ -251,6 +253,7 @@ namespace mvlt
             {
                 // Allocate space to new record and copy data to it
                 VaultRecord* newRecord = new VaultRecord(*recordPtr);
+                newRecord->ParentVault = this;
                 
                 // Add new record to set
                 RecordsSet.emplace(newRecord);
@@ -290,6 +293,10 @@ namespace mvlt
         // Sets depend on this Vault now
         for (VaultRecordSet* set : RecordSetsSet)
             set->ParentVault = this;
+
+        // Records are stored in this Vault now
+        for (VaultRecord* record : RecordsSet)
+            record->ParentVault = this;
     }
 
     Vault& Vault::operator=(Vault&& other) noexcept
@@ -322,6 +329,10 @@ namespace mvlt
             // Sets depend on this Vault now
             for (VaultRecordSet* set : RecordSetsSet)
                 set->ParentVault = this;
+
+            // Records are stored in this Vault now
+            for (VaultRecord* record : RecordsSet)
+                record->ParentVault = this;
         }
 
         return *this;
@@ -461,6 +472,7 @@ namespace mvlt
 
         // Create new record
         VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+        newRecord->ParentVault = this;
 
         for (const auto& paramsIt : params)
         {
diff --git a/Source/VaultRecord.h b/Source/VaultRecord.h
index 09a4841..5a646db 100644
--- a/Source/VaultRecord.h
+++ b/Source/VaultRecord.h
@@ -23,6 +23,9 @@ namespace mvlt
         // Validity counter
         std::size_t RefCounter = 0;
 
+        // Vault that stores this record
+        Vault* ParentVault = nullptr;
+
         // Mutex for thread safety
         mutable std::recursive_mutex VaultRecordMutex;
 
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 7f5f6e3..ac90d56 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -14,7 +14,6 @@ namespace mvlt
         if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = vaultRecord;
-        Vlt = vlt;
 
         vlt->RecursiveReadWriteMtx.ReadUnlock();
     }
@@ -57,12 +56,10 @@ namespace mvlt
 
                 other.VaultRecordPtr->AddRef();
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -81,14 +78,11 @@ namespace mvlt
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
                 other.VaultRecordPtr = nullptr;
-                other.Vlt = nullptr;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -154,7 +148,19 @@ namespace mvlt
 
         VaultOperationResult res;
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
+        if (!IsValid())
+        {
+            if (!params.empty())
+            {
+                res.Key = params.front().first;
+                res.RequestedType = params.front().second.GetDataType();
+            }
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
+            return res;
+        }
+
+        WriteLock<RecursiveReadWriteMutex> writeLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
         for (const auto& paramsIt : params)
@@ -175,7 +181,7 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(std::string);
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -183,7 +189,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -194,7 +200,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if (!Vlt->GetKeyType(key, res.SavedType))
+        if (!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
@@ -225,7 +231,7 @@ namespace mvlt
 
         bool res = false;
 
-        if (Vlt != nullptr) res = Vlt->IsKeyExist(key);
+        if (IsValid()) res = VaultRecordPtr->ParentVault->IsKeyExist(key);
 
         return res;
     }
@@ -240,7 +246,7 @@ namespace mvlt
         {
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
-                res = Vlt->GetKeys();
+                res = VaultRecordPtr->ParentVault->GetKeys();
         }
 
         return res;
@@ -257,11 +263,11 @@ namespace mvlt
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
+                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
 
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
-                for (const auto& keyPair : Vlt->VaultHashMapStructure)
+                for (const auto& keyPair : VaultRecordPtr->ParentVault->VaultHashMapStructure)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(keyPair.first, dataSaver);
@@ -269,7 +275,7 @@ namespace mvlt
                     std::cout << "\t" << keyPair.first << " = " << dataSaver.Str() << "\n";
                 }
 
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
+                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
 
@@ -286,7 +292,6 @@ namespace mvlt
             VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = nullptr;
-        Vlt = nullptr;
     }
 
     std::string VaultRecordRef::ToJson(const bool& isFormat, const std::size_t& tabSize) const noexcept
@@ -304,9 +309,9 @@ namespace mvlt
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
+                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
 
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
 
@@ -319,10 +324,10 @@ namespace mvlt
                     res += mvlt::ToJson(dataSaver);
 
                     ++keyCounter;
-                    if (keyCounter != Vlt->KeysOrder.size()) res += ",";
+                    if (keyCounter != VaultRecordPtr->ParentVault->KeysOrder.size()) res += ",";
                 }
 
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
+                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
@@ -347,9 +352,9 @@ namespace mvlt
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
+                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
 
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
@@ -357,7 +362,7 @@ namespace mvlt
                     res.emplace_back(std::pair<std::string, std::string>(key, dataSaver.Str()));
                 }
 
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
+                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
diff --git a/Source/VaultRecordRef.h b/Source/VaultRecordRef.h
index a22884f..3f07abf 100644
--- a/Source/VaultRecordRef.h
+++ b/Source/VaultRecordRef.h
@@ -20,9 +20,6 @@ namespace mvlt
     class VaultRecordRef
     {
     private:
-        // Pointer to Vault
-        Vault* Vlt = nullptr;
-
         // Pointer to VaultRecord inside Vault
         VaultRecord* VaultRecordPtr = nullptr;
 
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index b3ed023..b44ecee 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -19,14 +19,14 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> Lock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> Lock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -36,7 +36,7 @@ namespace mvlt
             return res;
         }
 
-        res = Vlt->SetDataToRecord(VaultRecordPtr, key, data);
+        res = VaultRecordPtr->ParentVault->SetDataToRecord(VaultRecordPtr, key, data);
 
         return res;
     }
@@ -56,7 +56,7 @@ namespace mvlt
         res.RequestedType = typeid(T);
 
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -64,7 +64,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -75,7 +75,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if(!Vlt->GetKeyType(key, res.SavedType))
+        if(!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index af78276..8502264 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -187,7 +187,7 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             // Check if vault record ref depends on same vault as this
-            if (recordRef.Vlt == ParentVault && recordRef.IsValid())
+            if (recordRef.IsValid() && recordRef.VaultRecordPtr->ParentVault == ParentVault)
             {
                 // Add pointer to record from recordRef to this
                 std::pair<decltype(RecordsSet.begin()), bool> emplaceRes = RecordsSet.emplace(recordRef.VaultRecordPtr);
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index c1c2173..c382569 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -98,7 +98,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecord(key, keyValue, vaultRecordRef);
-            vaultRecordRef.Vlt = ParentVault;
         }
         else
         {
@@ -123,8 +122,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecords(key, keyValue, recordsRefs, amountOfRecords);
-            for (VaultRecordRef& ref : recordsRefs)
-                ref.Vlt = ParentVault;
         }
         else
         {
-- 
2.43.0


From 88611c049dd87f9440ea716f75c85e1e773f27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 09/41] fix: lock the vault before the record when printing or
 converting a ref

Writers take the vault's lock first and a record's mutex second; the ref's
output methods took them the other way round and could deadlock with a writer.
---
 Source/VaultRecordRef.cpp | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index ac90d56..4b542c4 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -256,15 +256,14 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        if (VaultRecordPtr != nullptr)
+        // Check if Vault still accessable
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
-            // Check if Vault still accessable
+            // Check if record still in Vault
             if (VaultRecordPtr->GetIsValid())
             {
-                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
-
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
                 for (const auto& keyPair : VaultRecordPtr->ParentVault->VaultHashMapStructure)
@@ -274,12 +273,8 @@ namespace mvlt
 
                     std::cout << "\t" << keyPair.first << " = " << dataSaver.Str() << "\n";
                 }
-
-                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -302,15 +297,14 @@ namespace mvlt
         std::size_t keyCounter = 0;
         std::string res = "{";
 
-        if (VaultRecordPtr != nullptr)
+        // Check if Vault still accessable
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
-            // Check if Vault still accessable
+            // Check if record still in Vault
             if (VaultRecordPtr->GetIsValid())
             {
-                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
@@ -326,11 +320,7 @@ namespace mvlt
                     ++keyCounter;
                     if (keyCounter != VaultRecordPtr->ParentVault->KeysOrder.size()) res += ",";
                 }
-
-                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
             }
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
 
         if (isFormat) res += "\n";
@@ -345,15 +335,14 @@ namespace mvlt
 
         std::vector<std::pair<std::string, std::string>> res;
 
-        if (VaultRecordPtr != nullptr)
+        // Check if Vault still accessable
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
-            // Check if Vault still accessable
+            // Check if record still in Vault
             if (VaultRecordPtr->GetIsValid())
             {
-                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     DataSaver dataSaver;
@@ -361,11 +350,7 @@ namespace mvlt
 
                     res.emplace_back(std::pair<std::string, std::string>(key, dataSaver.Str()));
                 }
-
-                VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
             }
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
 
         return res;
-- 
2.43.0


From f736d8c54f376dfcb5e0356102e9523a1853b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 10/41] fix: keep a writer waiting after a spurious wakeup

A spurious wakeup of the condition variable let a writer in while readers were
still inside.
---
 Source/ReadWriteMutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index d8bc577..57bbba8 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -51,7 +51,7 @@ namespace mvlt
 
             IsCondVarWaiting.store(true);
 
-            if (ReadCounter > 0) Cv.wait(lk);
+            while (ReadCounter > 0) Cv.wait(lk);
 
             IsCondVarWaiting.store(false);
         }
-- 
2.43.0


From 870a7b8902f851fedd9d6849eccc935288ef4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 11/41] fix: count lock depth per mutex, not per thread

All recursive mutexes shared one pair of thread-local counters, so a thread
inside one vault's lock entered a second vault without locking it, and a write
lock on the second vault unlocked a read lock it had never taken.
---
 Source/ReadWriteMutex.cpp | 87 ++++++++++++++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 14 deletions(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index 57bbba8..fa1b481 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -65,8 +65,55 @@ namespace mvlt
         }
     }
 
-    thread_local std::size_t LocalThreadReadLockCounter = 0;
-    thread_local std::size_t LocalThreadWriteLockCounter = 0;
+    namespace
+    {
+        // How deep the current thread has locked one mutex
+        struct ThreadLockCounters
+        {
+            const RecursiveReadWriteMutex* Mutex;
+            std::size_t ReadLockCounter;
+            std::size_t WriteLockCounter;
+            ThreadLockCounters* Next;
+        };
+
+        // List with counters of all mutexes locked by the current thread. The first node is not allocated,
+        // so nothing is allocated while a thread locks only one mutex at a time
+        thread_local ThreadLockCounters LocalThreadLockCounters = {nullptr, 0, 0, nullptr};
+
+        // Find counters of the mutex in the current thread or start to use new ones
+        ThreadLockCounters& GetThreadLockCounters(const RecursiveReadWriteMutex* mutex) noexcept
+        {
+            for (ThreadLockCounters* counters = &LocalThreadLockCounters; counters != nullptr; counters = counters->Next)
+                if (counters->Mutex == mutex) return *counters;
+
+            if (LocalThreadLockCounters.Mutex == nullptr)
+            {
+                LocalThreadLockCounters.Mutex = mutex;
+                return LocalThreadLockCounters;
+            }
+
+            LocalThreadLockCounters.Next = new ThreadLockCounters{mutex, 0, 0, LocalThreadLockCounters.Next};
+            return *LocalThreadLockCounters.Next;
+        }
+
+        // Forget counters of the mutex if the current thread does not lock it anymore
+        void ReleaseThreadLockCounters(ThreadLockCounters& counters) noexcept
+        {
+            if (counters.ReadLockCounter != 0 || counters.WriteLockCounter != 0) return;
+
+            if (&counters == &LocalThreadLockCounters)
+            {
+                counters.Mutex = nullptr;
+                return;
+            }
+
+            ThreadLockCounters* previous = &LocalThreadLockCounters;
+            while (previous->Next != &counters) previous = previous->Next;
+
+            previous->Next = counters.Next;
+            delete &counters;
+        }
+    }
 
     void RecursiveReadWriteMutex::Disable() noexcept
     {
@@ -77,12 +124,14 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters& counters = GetThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter == 0)
+                if (counters.ReadLockCounter == 0)
                     Rwmx.ReadLock();
 
-                ++LocalThreadReadLockCounter;
+                ++counters.ReadLockCounter;
             }
         }
     }
@@ -91,13 +140,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters& counters = GetThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter == 1)
+                if (counters.ReadLockCounter == 1)
                     Rwmx.ReadUnlock();
 
-                --LocalThreadReadLockCounter;
+                --counters.ReadLockCounter;
             }
+
+            ReleaseThreadLockCounters(counters);
         }
     }
 
@@ -105,15 +158,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters& counters = GetThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.ReadLockCounter > 0)
                     Rwmx.ReadUnlock();
 
                 Rwmx.WriteLock();
             }
 
-            ++LocalThreadWriteLockCounter;
+            ++counters.WriteLockCounter;
         }
     }
 
@@ -121,13 +176,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 1)
+            ThreadLockCounters& counters = GetThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 1)
             {
                 Rwmx.WriteUnlock();
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.ReadLockCounter > 0)
                     Rwmx.ReadLock();
             }
-            --LocalThreadWriteLockCounter;
+            --counters.WriteLockCounter;
+
+            ReleaseThreadLockCounters(counters);
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From f53bed9310f01a61a36fd3b3e0160947d3444f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 12/41] fix: forget the set in a record removed from it

Records removed from, excluded from or intersected out of a set kept a pointer
to it: changing such a record put it back into the set's index, and changing or
erasing it after the set was destroyed used freed memory.
---
 Source/Vault.hpp          |  4 ++++
 Source/VaultRecordSet.cpp | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 6848ec5..159c270 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -1000,6 +1000,8 @@ namespace mvlt
                 tmpRec->RemoveFromDependentSets();
                 tmpRec->Invalidate();
             }
+            else
+                tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
             res.IsOperationSuccess = true;
             res.ResultCode = VaultOperationResultCode::Success;
@@ -1081,6 +1083,8 @@ namespace mvlt
                     tmpRec->RemoveFromDependentSets();
                     tmpRec->Invalidate();
                 }
+                else
+                    tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
                 if (counter >= amountOfRecords) break;
                 
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 8502264..7bf82fd 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -282,7 +282,10 @@ namespace mvlt
         if (!GetIsParentVaultValid()) return false;
 
         ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-        return Vault::EraseRecord(recordRefToErase);
+        bool res = Vault::EraseRecord(recordRefToErase);
+        if (res) recordRefToErase.VaultRecordPtr->EraseDependentSet(this);
+
+        return res;
     }
 
     std::size_t VaultRecordSet::Size() const noexcept
@@ -473,7 +476,10 @@ namespace mvlt
             {
                 // if found record in a then delete it here
                 if (a.RecordsSet.find(*recordsSetIt) != a.RecordsSet.end())
+                {
+                    (*recordsSetIt)->EraseDependentSet(this);
                     recordsSetIt = RemoveRecord(*recordsSetIt, nullptr);
+                }
                 else
                     ++recordsSetIt;
             }
@@ -523,7 +529,10 @@ namespace mvlt
             {
                 // if not found record in a then delete it here
                 if (a.RecordsSet.find(*recordsSetIt) == a.RecordsSet.end())
+                {
+                    (*recordsSetIt)->EraseDependentSet(this);
                     recordsSetIt = RemoveRecord(*recordsSetIt, nullptr);
+                }
                 else
                     ++recordsSetIt;
             }
-- 
2.43.0


From 953a7b8d59cb72f4b79dd82ff32fe1c34b849815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 13/41] fix: tell records they joined a set by join, union or
 intersection

Such records did not know the set, so the set missed their changes and kept a
dangling pointer after they were erased from the vault.
---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 7bf82fd..49c2629 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -428,6 +428,8 @@ namespace mvlt
 
                     for (auto& adder : VaultRecordAdders)
                         adder.second(record);
+
+                    record->AddToDependentSets(this);
                 }
             }
         }
@@ -683,6 +685,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
@@ -698,6 +702,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
-- 
2.43.0


From b43961498b07e8a08fbb346e829f1e3607db6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 14/41] fix: move a record set completely

A moved set kept no index entries for its records, the moved-from set kept all
of its own, and the previous content of a move-assigned set stayed behind with
its records pointing at the set.
---
 Source/VaultRecordSet.cpp | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 49c2629..cadb95b 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -48,30 +48,8 @@ namespace mvlt
 
         WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
 
-        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
-
-        for (VaultRecord* record : other.RecordsSet)
-        {
-            record->EraseDependentSet(&other);
-            record->AddToDependentSets(this);
-        }
-
-        ParentVault = other.ParentVault;
-        other.ParentVault = nullptr;
-
-        for (auto& keyCopierIt : other.VaultKeyCopiers)
-            keyCopierIt.second(this);
-
-        KeysOrder = std::move(other.KeysOrder);
-        UniqueKeys = std::move(other.UniqueKeys);
-        InvalidFileRecords = std::move(other.InvalidFileRecords);
-        RecordsSet = std::move(other.RecordsSet);
-        RecordSetsSet = std::move(other.RecordSetsSet);
-
-        ParentVault->RecordSetsSet.erase(&other);
-        ParentVault->RecordSetsSet.emplace(this);
-
-        RecursiveReadWriteMtx.Disable();
+        CopySet(other);
+        other.Reset();
     }
 
     VaultRecordSet::VaultRecordSet() noexcept
@@ -119,10 +97,9 @@ namespace mvlt
 
         if (&other != this)
         {
+            Reset();
             if (other.GetIsParentVaultValid())
                 MoveSet(std::move(other));
-            else
-                Reset();
         }
 
         return *this;
-- 
2.43.0


From ef21f87e4f5b3ed9af2a40df3bd982e0deda47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 15/41] fix: construct a record set from an unfilled one as a
 record set

Copying or moving a set without a parent vault produced an object that behaved
as a vault: once filled, dropping records from it destroyed records its parent
vault still owned.
---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index cadb95b..93fb0d7 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -65,6 +65,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
+        RecursiveReadWriteMtx.Disable();
+
         if (other.GetIsParentVaultValid())
             CopySet(other);
     }
@@ -87,6 +90,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
+        RecursiveReadWriteMtx.Disable();
+
         if (other.GetIsParentVaultValid())
             MoveSet(std::move(other));
     }
-- 
2.43.0


From eae2178d9458de43d0a477e79e312b311be5b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 16/41] fix: register sets filled by concurrent requests
 without a data race

Requests hold only the vault's read lock, so two threads requesting at once
modified the vault's collection of dependent sets at the same time.
---
 Source/Vault.cpp          |  9 +++++++++
 Source/Vault.h            | 10 ++++++++++
 Source/Vault.hpp          |  4 ++--
 Source/VaultRecordSet.cpp |  4 ++--
 Source/VaultRecordSet.hpp |  4 ++--
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index c2ba8f2..61ca380 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -37,6 +37,15 @@ namespace mvlt
         return dataIt;
     }
 
+    void Vault::AddDependentRecordSet(VaultRecordSet& vaultRecordSet) const noexcept
+    {
+        DBG_LOG_ENTER();
+
+        RecordSetsSetMtx.lock();
+        RecordSetsSet.emplace(&vaultRecordSet);
+        RecordSetsSetMtx.unlock();
+    }
+
     bool Vault::ReadFile(const std::string& fileName, const bool& isPreprocessRecord,
             const char& separator, const bool& isLoadKeys, const std::vector<std::string>& userKeys,
             const std::function<void (const std::vector<std::string>& keys, std::vector<std::string>& values)>& recordHandler) noexcept
diff --git a/Source/Vault.h b/Source/Vault.h
index ffa6a34..1bfcd19 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -112,6 +112,16 @@ namespace mvlt
         /// \brief Unordered set with all VaultRecordSet pointers
         mutable std::unordered_set<VaultRecordSet*> RecordSetsSet;
 
+        /// \brief Mutex to add new sets to RecordSetsSet from several threads that have locked Vault to read
+        mutable std::mutex RecordSetsSetMtx;
+
+        /**
+            \brief Method for saving pointer to dependent VaultRecordSet
+
+            \param [in] vaultRecordSet new dependent VaultRecordSet
+        */
+        void AddDependentRecordSet(VaultRecordSet& vaultRecordSet) const noexcept;
+
         /**
             \brief Method for setting a new value in VaultRecord and Vault
 
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 159c270..ea4f075 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -288,7 +288,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            AddDependentRecordSet(vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
@@ -896,7 +896,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            AddDependentRecordSet(vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 93fb0d7..591c27a 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -26,7 +26,7 @@ namespace mvlt
         UniqueKeys = other.UniqueKeys;
         InvalidFileRecords = other.InvalidFileRecords;
 
-        other.ParentVault->RecordSetsSet.emplace(this);
+        other.ParentVault->AddDependentRecordSet(*this);
 
         for (VaultRecord* record : other.RecordsSet)
         {
@@ -653,7 +653,7 @@ namespace mvlt
             // Set unique keys
             res.UniqueKeys = a.UniqueKeys;
 
-            a.ParentVault->RecordSetsSet.emplace(&res);
+            a.ParentVault->AddDependentRecordSet(res);
 
             // Pick less set to iterate
             if (a.RecordsSet.size() < b.RecordsSet.size())
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index c382569..62aa179 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -46,7 +46,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->AddDependentRecordSet(vaultRecordSet);
 
                 res = Vault::RequestRecords(requestType, key, beginKeyValue, endKeyValue, vaultRecordSet, isIncludeBeginKeyValue, isIncludeEndKeyValue, amountOfRecords, requestPredicat);
                 vaultRecordSet.ParentVault = ParentVault;
@@ -231,7 +231,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->AddDependentRecordSet(vaultRecordSet);
 
                 res = Vault::Request(std::move(request), vaultRecordSet);
                 vaultRecordSet.ParentVault = ParentVault;
-- 
2.43.0


From 11553096d871ef77fe864909d07340d10054ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 17/41] fix: lock the parent vault when clearing or comparing
 sets and reading file errors

These read or changed state that writers of the vault change at the same time.
---
 Source/Vault.cpp          |  2 ++
 Source/VaultRecordSet.cpp | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 61ca380..6f4804a 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1084,6 +1084,8 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
+
         return InvalidFileRecords;
     }
 
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 591c27a..5ffd2ff 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -245,6 +245,8 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
+            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+
             // Remove this from records
             for (VaultRecord* record : RecordsSet)
                 record->EraseDependentSet(this);
@@ -554,8 +556,13 @@ namespace mvlt
 
         bool res = false;
 
-        if (a.ParentVault == b.ParentVault && a.RecordsSet == b.RecordsSet)
-            res = true;
+        if (a.ParentVault == b.ParentVault)
+        {
+            if (a.ParentVault == nullptr) return a.RecordsSet == b.RecordsSet;
+
+            ReadLock<RecursiveReadWriteMutex> readLock(a.ParentVault->RecursiveReadWriteMtx);
+            res = a.RecordsSet == b.RecordsSet;
+        }
 
         return res;
     }
@@ -564,12 +571,7 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        bool res = false;
-
-        if (a.ParentVault != b.ParentVault || a.RecordsSet != b.RecordsSet)
-            res = true;
-
-        return res;
+        return !(a == b);
     }
 
     VaultOperationResult Union(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept
-- 
2.43.0


From 1febfee25b9e34686c8d9cf4957ff26e0ce97fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 18/41] fix: detach a request's result set from its old vault
 before locking the new one

Filling a set that belonged to another vault locked that vault for writing
while this one was locked for reading, so two such requests in opposite
directions could deadlock.
---
 Source/Vault.hpp          | 12 ++++++++----
 Source/VaultRecordSet.hpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index ea4f075..2cfe036 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -281,6 +281,10 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Detach vaultRecordSet from other Vault before locking this one, because it locks that Vault
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -293,8 +297,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
@@ -889,6 +891,10 @@ namespace mvlt
         res.IsOperationSuccess = true;
         res.ResultCode = VaultOperationResultCode::Success;
 
+        // Detach vaultRecordSet from other Vault before locking this one, because it locks that Vault
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -901,8 +907,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 62aa179..2d1ad9f 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -23,13 +23,15 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from other Vault before locking parent Vault, because it locks that Vault
+                if (vaultRecordSet.ParentVault != ParentVault)
+                    vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
@@ -208,13 +210,15 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from other Vault before locking parent Vault, because it locks that Vault
+                if (vaultRecordSet.ParentVault != ParentVault)
+                    vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
-- 
2.43.0


From 95df544ddce21bf3e2530f1aaaacc07dd973d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 19/41] fix: share a request's data between its copies and keep
 operands inside logical requests

---
 Source/VaultRequest.h   | 14 ++++++++------
 Source/VaultRequest.hpp | 21 +++++++--------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index 214e54d..70ac2bd 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <functional>
+#include <memory>
+#include <typeindex>
 
 #include "VaultClasses.h"
 
@@ -19,19 +21,19 @@ namespace mvlt
         VaultRequestType RequestType = Type;
 
         /// Function for requesting data
-        void (*DataRequestFunc)(const std::string&, Vault*, std::unordered_set<VaultRecord*>&, void*, void*, bool, bool, const std::function<bool(const VaultRecordRef& ref)>&);
+        void (*DataRequestFunc)(const std::string&, Vault*, std::unordered_set<VaultRecord*>&, void*, void*, bool, bool, const std::function<bool(const VaultRecordRef& ref)>&) = nullptr;
 
         /// A variable for storing a logical request function
         std::function<void(Vault* vlt, std::unordered_set<VaultRecord*>& setWithRecords)> LogicalRequestFunction;
 
-        /// A pointer to a function that delete data
-        void (*DeleteFunc)(void*) = nullptr;
-
         /// Request key
         std::string Key;
 
-        /// Pointer to Data saved inside Request
-        void* DataPtr = nullptr;
+        /// Pointer to Data saved inside Request. All copies of the Request share the same data
+        std::shared_ptr<void> DataPtr;
+
+        /// Type of the Data saved inside Request
+        std::type_index DataType = typeid(void);
 
         /// Variable to store predicat function
         std::function<bool(const VaultRecordRef& ref)> RequestPredicat;
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d395539..01dcfcf 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -18,7 +18,8 @@ namespace mvlt
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
-        DataPtr = static_cast<void*>(new T(keyValue));
+        DataPtr = std::make_shared<T>(keyValue);
+        DataType = typeid(T);
 
         // Set Request func
         DataRequestFunc = [](const std::string& key, Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet, void* beginValue, void* endValue,
@@ -34,11 +35,6 @@ namespace mvlt
             // Throw error
             if (!res.IsOperationSuccess) throw VaultOperationResult(res);
         };
-
-        DeleteFunc = [](void* ptrToDelete)
-        {
-            delete static_cast<T*>(ptrToDelete);
-        };
     }
 
     template <VaultRequestType Type>
@@ -52,7 +48,7 @@ namespace mvlt
         {
         case VaultRequestType::Or:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 std::unordered_set<VaultRecord*> req1Result, req2Result;
 
@@ -70,14 +66,14 @@ namespace mvlt
         
         case VaultRequestType::And:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
-                if (request1.Key == request2.Key && 
+                if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
                 {
-                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
+                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
                         (request2.RequestType == VaultRequestType::LessOrEqual), [&](const VaultRecordRef& ref) 
                             {
@@ -121,7 +117,7 @@ namespace mvlt
         case VaultRequestType::Equal:
         case VaultRequestType::GreaterOrEqual:
         case VaultRequestType::Greater:
-            DataRequestFunc(Key, vlt, vaultRecords, DataPtr, nullptr, false, false, RequestPredicat);
+            DataRequestFunc(Key, vlt, vaultRecords, DataPtr.get(), nullptr, false, false, RequestPredicat);
             break;
         case VaultRequestType::Or:
         case VaultRequestType::And:
@@ -134,9 +130,6 @@ namespace mvlt
     VaultRequest<Type>::~VaultRequest() noexcept
     {
         DBG_LOG_ENTER();
-
-        if (DeleteFunc != nullptr && DataPtr != nullptr)
-            DeleteFunc(DataPtr);
     }
 
     template <VaultRequestType LType, VaultRequestType RType>
-- 
2.43.0


From 647d406003da0349134dda029b7df14399608f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 20/41] fix: apply amountOfRecords to the records a request
 accepts, zero included

---
 Source/Vault.hpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 2cfe036..e492a15 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -180,14 +180,10 @@ namespace mvlt
                     if (counter >= amountOfRecords) break;
 
                     // Check if it is not default predicate
-                    if (&requestPredicat != &DefaultRequestPredicat)
-                    {
-                        if (requestPredicat(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this))))
-                            vaultRecords.emplace((*equalRangeIt).second);
-                    }
-                    else
-                        vaultRecords.emplace((*equalRangeIt).second);
-                    
+                    if (&requestPredicat != &DefaultRequestPredicat && !requestPredicat(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this))))
+                        continue;
+
+                    vaultRecords.emplace((*equalRangeIt).second);
                     ++counter;
                 }
             }
@@ -253,14 +249,10 @@ namespace mvlt
                 if (counter >= amountOfRecords) break;
 
                 // Check if it is not default predicate
-                if (&requestPredicat != &DefaultRequestPredicat)
-                {
-                    if (requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, const_cast<Vault*>(this))))
-                        vaultRecords.emplace((*TtoVaultRecordMapIt).second);
-                }
-                else
-                    vaultRecords.emplace((*TtoVaultRecordMapIt).second);
+                if (&requestPredicat != &DefaultRequestPredicat && !requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, const_cast<Vault*>(this))))
+                    continue;
 
+                vaultRecords.emplace((*TtoVaultRecordMapIt).second);
                 ++counter;
             }
         }
@@ -784,9 +776,9 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second; ++equalRangeIt)
             {
+                if (counter >= amountOfRecords) break;
                 ++counter;
                 recordsRefs.emplace_back(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this)));
-                if (counter >= amountOfRecords) break;
             }
 
             res.IsOperationSuccess = true;
@@ -1068,6 +1060,8 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second;)
             {
+                if (counter >= amountOfRecords) break;
+
                 // Save next iterator
                 auto nextIt = equalRangeIt;
                 ++nextIt;
@@ -1090,8 +1084,6 @@ namespace mvlt
                 else
                     tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
-                if (counter >= amountOfRecords) break;
-                
                 equalRangeIt = nextIt;
             }
         }
-- 
2.43.0


From 4c8a19dde691295109d4fd9cebec9615581d564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 21/41] fix: keep the debug backtrace inside the captured stack
 frames

---
 Source/BackTrace/BackTrace.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 351431f..a57238b 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -26,15 +26,21 @@ namespace mvlt
 
             if (TraceFormat == BackTraceFormat::Compact)
             {
-                traceSize = i + 1;
-                Trace.push_back(Trace.front());
+                // Inlining can leave less frames in the stack than functions in the trace
+                if (traceSize > i + 1) traceSize = i + 1;
+                if (!Trace.empty() && i < traceSize) Trace.push_back(Trace.front());
             }
 
             for (; i < traceSize; ++i)
             {
                 Dl_info info;
                 link_map* extra_info;
-                dladdr1(array[i], &info, reinterpret_cast<void**>(&extra_info), RTLD_DL_LINKMAP);
+                if (dladdr1(array[i], &info, reinterpret_cast<void**>(&extra_info), RTLD_DL_LINKMAP) == 0)
+                {
+                    if (!Trace.empty()) Trace.pop_back();
+                    continue;
+                }
+
                 // codechecker_intentional [all] no need to optimize it
                 info.dli_fbase = (void*)extra_info->l_addr;
 
@@ -46,7 +52,8 @@ namespace mvlt
                 char buf[BUFSIZ];
 
                 // codechecker_intentional [all] suppress
-                std::size_t readed = readlink("/proc/self/exe", buf, BUFSIZ);
+                ssize_t readed = readlink("/proc/self/exe", buf, BUFSIZ - 1);
+                buf[readed > 0 ? readed : 0] = '\0';
                 std::stringstream sstream;
                 sstream << std::hex << offset;
 
-- 
2.43.0


From 00c93d00cc10f53afd59a555108165fb9c2dbebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 22/41] fix: escape keys and string values in json

---
 Source/Strings/ToJson.cpp | 27 ++++++++++++++++++++++++++-
 Source/Strings/ToJson.h   | 11 ++++++++++-
 Source/Vault.cpp          |  4 ++--
 Source/VaultRecordRef.cpp |  2 +-
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 8ee39dc..bb14fdd 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -20,13 +20,38 @@ namespace mvlt
             return true;
     }
 
+    std::string EscapeToJson(const std::string& str)
+    {
+        static const char hexChars[] = "0123456789abcdef";
+        std::string res;
+
+        for (const char& symbol : str)
+        {
+            if (symbol == '"' || symbol == '\\')
+            {
+                res += '\\';
+                res += symbol;
+            }
+            else if (static_cast<unsigned char>(symbol) < 0x20)
+            {
+                res += "\\u00";
+                res += hexChars[(symbol >> 4) & 0xf];
+                res += hexChars[symbol & 0xf];
+            }
+            else
+                res += symbol;
+        }
+
+        return res;
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
         std::type_index dataType = dataSaver.GetDataType();
 
         if (IsQuotedJsonType(dataType))
-            res = "\"" + dataSaver.Str() + "\"";
+            res = "\"" + EscapeToJson(dataSaver.Str()) + "\"";
         else
             res = dataSaver.Str();
 
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index 066bbf3..87177e3 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -13,6 +13,15 @@ namespace mvlt
     */
     bool IsQuotedJsonType(const std::type_index& dataType);
 
+    /**
+        \brief A function for escaping characters that can not be stored inside a json string as is
+
+        \param [in] str string to escape
+
+        \return string to save between quotation marks in json
+    */
+    std::string EscapeToJson(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -37,7 +46,7 @@ namespace mvlt
         std::string res;
 
         if (IsQuotedJsonType(typeid(T)))
-            res = "\"" + ToString(data) + "\"";
+            res = "\"" + EscapeToJson(ToString(data)) + "\"";
         else
             res = ToString(data);
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 6f4804a..42bb6ba 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -758,7 +758,7 @@ namespace mvlt
             if (!isArray)
             {
                 if (isUseRecordTemplate)
-                    res << "\"" << recordTemplate << counter << "\":";
+                    res << "\"" << EscapeToJson(recordTemplate) << counter << "\":";
                 else
                     res << "\"" << record << "\":";
             }
@@ -776,7 +776,7 @@ namespace mvlt
                 DataSaver dataSaver;
                 record->GetDataSaver(key, dataSaver);
 
-                res << "\"" << key << "\":";
+                res << "\"" << EscapeToJson(key) << "\":";
 
                 if (isFormat) res << " ";
                 res << mvlt::ToJson(dataSaver);
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 4b542c4..11acdc8 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -312,7 +312,7 @@ namespace mvlt
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
 
-                    res += "\"" + key + "\":";
+                    res += "\"" + EscapeToJson(key) + "\":";
 
                     if (isFormat) res += " ";
                     res += mvlt::ToJson(dataSaver);
-- 
2.43.0


From ec4ae0811acc3db5cf957cb9b880663eeb4043c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 23/41] fix: write not finite numbers as null in json

---
 Source/Strings/ToJson.cpp | 10 +++++++++-
 Source/Strings/ToJson.h   | 11 ++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index bb14fdd..1afb4f7 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -45,6 +45,14 @@ namespace mvlt
         return res;
     }
 
+    std::string NumberToJson(const std::string& str)
+    {
+        if (str == "inf" || str == "-inf" || str == "nan" || str == "-nan")
+            return "null";
+        else
+            return str;
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
@@ -53,7 +61,7 @@ namespace mvlt
         if (IsQuotedJsonType(dataType))
             res = "\"" + EscapeToJson(dataSaver.Str()) + "\"";
         else
-            res = dataSaver.Str();
+            res = NumberToJson(dataSaver.Str());
 
         return res;
     }
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index 87177e3..b050180 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -22,6 +22,15 @@ namespace mvlt
     */
     std::string EscapeToJson(const std::string& str);
 
+    /**
+        \brief A function for replacing numbers that can not be represented in json with null
+
+        \param [in] str number converted to a string
+
+        \return null for infinite and not a number values, otherwise the same string
+    */
+    std::string NumberToJson(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -48,7 +57,7 @@ namespace mvlt
         if (IsQuotedJsonType(typeid(T)))
             res = "\"" + EscapeToJson(ToString(data)) + "\"";
         else
-            res = ToString(data);
+            res = NumberToJson(ToString(data));
 
         return res;
     }
-- 
2.43.0


From c21b23c7718750a7a1b5f68fd6cbe3e12841a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 24/41] fix: escape carriage returns, custom separators and
 keys in saved csv files

---
 Source/CsvParser/CsvParser.cpp |  6 +++---
 Source/CsvParser/CsvParser.h   |  3 ++-
 Source/Vault.cpp               | 12 ++++++------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 3969a08..ecae4c1 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -2,7 +2,7 @@
 
 namespace mvlt
 {
-    std::string FormatStringToCsv(const std::string& str) noexcept
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator) noexcept
     {
         bool isEscapingRequired = false;
         std::string res;
@@ -16,10 +16,10 @@ namespace mvlt
                 continue;
             }
 
-            if (symbol == ',')
+            if (symbol == ',' || separator.find(symbol) != std::string::npos)
                 isEscapingRequired = true;
 
-            if (symbol == '\n')
+            if (symbol == '\n' || symbol == '\r')
                 isEscapingRequired = true;
 
             res += symbol;
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 308a38c..d1c6d53 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -30,10 +30,11 @@ namespace mvlt
         - "  - a quotation mark to end escaping
 
         \param [in] str the string to be converted
+        \param [in] separator the string used to separate the fields, its symbols are escaped like commas
 
         \return returns a string in csv format
     */
-    std::string FormatStringToCsv(const std::string& str) noexcept;
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator = ",") noexcept;
 
     /// \brief A class for parsing csv files that provides data in a form similar to generators
     class CsvParser
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 42bb6ba..c0b699b 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1003,18 +1003,18 @@ namespace mvlt
             if (keys.empty())
             {
                 auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << *keysOrderIt;
+                csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
             else 
             {
                 auto keysOrderIt = keys.cbegin();
-                csvFile << *keysOrderIt;
+                csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
@@ -1030,7 +1030,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1050,7 +1050,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From f215ece37cc915be52167b031a5107a837259014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 25/41] fix: save vaults without keys to csv without reading
 past the key list

---
 Source/Vault.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index c0b699b..fd4573f 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1000,23 +1000,21 @@ namespace mvlt
         // Save keys to file
         if (isSaveKey)
         {
-            if (keys.empty())
+            if (keys.empty() && !KeysOrder.empty())
             {
                 auto keysOrderIt = KeysOrder.cbegin();
                 csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
                 for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
-                if (KeysOrder.size() != 0)
-                    csvFile.write(endOfLine, 2);
+                csvFile.write(endOfLine, 2);
             }
-            else 
+            else if (!keys.empty())
             {
                 auto keysOrderIt = keys.cbegin();
                 csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
                 for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
-                if (KeysOrder.size() != 0)
-                    csvFile.write(endOfLine, 2);
+                csvFile.write(endOfLine, 2);
             }
         }
 
-- 
2.43.0


From 1aa0a343f24878db9b71c44bcde6cd90318b1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 26/41] fix: report failed writes when saving to csv

---
 Source/Vault.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index fd4573f..b2e9329 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1061,7 +1061,10 @@ namespace mvlt
             }
         }
 
-        return true;
+        // Report data that could not be written
+        csvFile.close();
+
+        return !csvFile.fail();
     }
 
     bool Vault::ReadFile(const std::string& fileName, const char& separator, const bool& isLoadKeys, const std::vector<std::string>& keys) noexcept
-- 
2.43.0


From ac14a75368ba4e18e18d1aa35951e757d62a33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 27/41] fix: keep empty csv fields at the end of a record

---
 Source/CsvParser/CsvParser.cpp | 13 +++++++++----
 Source/Vault.cpp               | 22 ++++++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index ecae4c1..e016216 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -47,6 +47,9 @@ namespace mvlt
         // Is escaping flag
         bool isEscaping = false;
 
+        // Is current record pole escaped flag
+        bool isEscapedPole = false;
+
         // Record pole
         std::string recordPole;
 
@@ -60,8 +63,8 @@ namespace mvlt
                 // If it is still escaping then this is not new record because it is available to store new line symbol in record poles
                 if (!isEscaping && (FileReader.GetChar() == 13 || FileReader.GetChar() == 10 )) // 13 - CR or 0d. 10 - LF or 0a.
                 {
-                    // Add last record
-                    if (!recordPole.empty())
+                    // Add last record. Only empty line does not have it
+                    if (!recordPole.empty() || isEscapedPole || !vectorWithNext.empty())
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
@@ -80,6 +83,7 @@ namespace mvlt
                     {
                         // Start escaping
                         isEscaping = true;
+                        isEscapedPole = true;
                         recordPole.clear();
                         continue;
                     }
@@ -103,6 +107,7 @@ namespace mvlt
                     // Set new record pole to record
                     vectorWithNext.emplace_back(std::move(recordPole));
                     recordPole.clear();
+                    isEscapedPole = false;
                     continue;
                 }
                 
@@ -111,8 +116,8 @@ namespace mvlt
             }
         }
 
-        // Add last record
-        if (!recordPole.empty())
+        // Add last record. Only empty line does not have it
+        if (!recordPole.empty() || isEscapedPole || !vectorWithNext.empty())
             vectorWithNext.emplace_back(std::move(recordPole));
 
         if (!vectorWithNext.empty())
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index b2e9329..3fb656f 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -997,23 +997,33 @@ namespace mvlt
         // C array to store correct new line characters. 
         const char endOfLine[2] = {13, 10}; // 13 - CR or 0d. 10 - LF or 0a.
 
+        // The empty only field of the record must differ from an empty line
+        const std::size_t columnsAmount = keys.empty() ? KeysOrder.size() : keys.size();
+        auto formatField = [&](const std::string& field) -> std::string
+        {
+            if (columnsAmount == 1 && field.empty())
+                return "\"\"";
+            else
+                return FormatStringToCsv(field, separator);
+        };
+
         // Save keys to file
         if (isSaveKey)
         {
             if (keys.empty() && !KeysOrder.empty())
             {
                 auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                csvFile << formatField(*keysOrderIt);
                 ++keysOrderIt;
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
+                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << formatField(*keysOrderIt);
                 csvFile.write(endOfLine, 2);
             }
             else if (!keys.empty())
             {
                 auto keysOrderIt = keys.cbegin();
-                csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                csvFile << formatField(*keysOrderIt);
                 ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
+                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << formatField(*keysOrderIt);
                 csvFile.write(endOfLine, 2);
             }
         }
@@ -1028,7 +1038,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    csvFile << formatField(data);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1048,7 +1058,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    csvFile << formatField(data);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 7e984457eda9d932b264031eac1695dcfe17d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 28/41] fix: count empty lines in csv files with lf line ends

---
 Source/CsvParser/CsvParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index e016216..1d19662 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -68,7 +68,7 @@ namespace mvlt
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
-                    if (FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
+                    if (FileReader.GetChar() == 13 && FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
                         FileReader.Move();
 
                     FileReader.Move();
-- 
2.43.0


From d6d885706371a240a8391058e00f64e893118643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 29/41] fix: ignore csv fields without a key instead of reading
 past the key list

---
 Source/Vault.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 3fb656f..cbca8d7 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -110,6 +110,9 @@ namespace mvlt
                     // Store all keys values to record
                     for (const auto& recordPole : record)
                     {
+                        // Skip poles without key
+                        if (keyOrderIt == KeysOrder.end()) break;
+
                         // Set last record pole
                         isCorrectRecordInFile = newRecord->SetDataFromString(*keyOrderIt, recordPole);
 
-- 
2.43.0


From 2e4e742a7d04e7e5cf4d82b7c5404e9fe117d32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 30/41] fix: report csv files that can not be read

---
 Source/CsvParser/CsvParser.cpp        | 12 ++++++++++++
 Source/CsvParser/CsvParser.h          |  7 +++++++
 Source/CsvParser/StreamFileReader.cpp | 16 +++++++++++++++-
 Source/CsvParser/StreamFileReader.h   |  7 +++++++
 Source/Vault.cpp                      |  2 +-
 5 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 1d19662..504467c 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -39,6 +39,11 @@ namespace mvlt
         return FileReader.Open(fileName);
     }
 
+    bool CsvParser::IsFail() const noexcept
+    {
+        return FileReader.IsFail();
+    }
+
     bool CsvParser::GetNextVector(std::vector<std::string>& vectorWithNext, const char& separator) noexcept
     {
         // Clear old data
@@ -116,6 +121,13 @@ namespace mvlt
             }
         }
 
+        // The record that could not be read to the end is not correct
+        if (FileReader.IsFail())
+        {
+            vectorWithNext.clear();
+            return false;
+        }
+
         // Add last record. Only empty line does not have it
         if (!recordPole.empty() || isEscapedPole || !vectorWithNext.empty())
             vectorWithNext.emplace_back(std::move(recordPole));
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index d1c6d53..18e919a 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -97,6 +97,13 @@ namespace mvlt
         */
         bool GetNextVector(std::vector<std::string>& vectorWithNext, const char& separator) noexcept;
 
+        /**
+            \brief A method for checking if a file could not be read to the end
+
+            \return true if there was an error while reading the file, otherwise returns false
+        */
+        bool IsFail() const noexcept;
+
         /// \brief Default destructor
         ~CsvParser() noexcept = default;
     };
diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index a5567a8..02b8b6c 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -14,7 +14,6 @@ namespace mvlt
         File.open(fileName, std::ios::binary | std::ios::ate);
         if (!File.is_open()) return false;
 
-
         FileSize = File.tellg();
         File.seekg(0);
 
@@ -37,6 +36,13 @@ namespace mvlt
             }
         }
         
+        // Opened file can still be unreadable, for example if it is a directory
+        if (File.fail())
+        {
+            FileSize = 0;
+            return false;
+        }
+
         return true; 
     }
 
@@ -63,6 +69,11 @@ namespace mvlt
         return res;
     }
 
+    bool StreamFileReader::IsFail() const noexcept
+    {
+        return File.fail();
+    }
+
     std::size_t StreamFileReader::GetFileSize() const noexcept
     {
         return FileSize;
@@ -103,6 +114,9 @@ namespace mvlt
                     else
                         File.read(DataChunk, FileSize - FilePos);
 
+                    // Stop on the last symbol that was read if the file can not be read further
+                    if (File.fail()) FileSize = FilePos + File.gcount();
+
                     ChunkPos = 0;
                 }
 
diff --git a/Source/CsvParser/StreamFileReader.h b/Source/CsvParser/StreamFileReader.h
index 6c5fb50..0cca091 100644
--- a/Source/CsvParser/StreamFileReader.h
+++ b/Source/CsvParser/StreamFileReader.h
@@ -118,6 +118,13 @@ namespace mvlt
         */
         bool IsEnd() const noexcept;
 
+        /**
+            \brief A method for checking if a file could not be read
+
+            \return true if there was an error while reading the file, otherwise returns false
+        */
+        bool IsFail() const noexcept;
+
         /**
             \brief A method for get file size
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index cbca8d7..704f0bb 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -189,7 +189,7 @@ namespace mvlt
             }
         }
 
-        return true;
+        return !parser.IsFail();
     }
 
     Vault::Vault() noexcept 
-- 
2.43.0


From 8a8154e74c5a2b2c629bfc5b9c24836dd4b1ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 31/41] fix: reject integers that do not fit the key type

---
 Source/Strings/FromString.h | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 4a2b38f..82bb27c 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <limits>
 #include <string>
 #include <cstdint>
 
@@ -198,13 +199,22 @@ namespace mvlt
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+
+            // Store negative numbers as is because the minimal value does not have a positive pair
+            T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+            if (isNegative)
+            {
+                if (res < (std::numeric_limits<T>::min() + digit) / 10) return false;
+                res = static_cast<T>(res * 10 - digit);
+            }
+            else
+            {
+                if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+                res = static_cast<T>(res * 10 + digit);
+            }
         }
 
-        // codechecker_intentional [all] its not error because negative numbers handled by if
-        if (isNegative) data = res * -1;
-        else data = res;
+        data = res;
 
         return true;
     }
@@ -281,8 +291,10 @@ namespace mvlt
         for (std::size_t i = 0; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+
+            T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+            if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+            res = static_cast<T>(res * 10 + digit);
         }
 
         data = res;
@@ -302,7 +314,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint16_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -318,7 +330,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint32_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -334,7 +346,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint64_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**@} */
-- 
2.43.0


From bcfd95efffce014a48d99b124d8372bf1ca0433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 32/41] fix: read floating point values outside of the int
 range

---
 Source/Strings/FromString.h | 50 ++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 82bb27c..fa13947 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <limits>
+#include <locale>
 #include <string>
+#include <sstream>
 #include <cstdint>
 
 namespace mvlt
@@ -93,44 +95,30 @@ namespace mvlt
     template <class T>
     inline bool FromStringDoubleAndFloat(const std::string& stringToCopyDataFrom, T& data) noexcept
     {
-        if (stringToCopyDataFrom.length() == 0) return false;
-
-        int integer = 0, fractional = 0;
-
-        std::size_t i = 0;
-        bool isNegative = false;
+        bool isDigit = false, isPoint = false;
 
-        if (stringToCopyDataFrom[0] == '-' && stringToCopyDataFrom.length() > 1)
+        // Allow only digits with one point and minus in front of it
+        for (std::size_t i = 0; i < stringToCopyDataFrom.length(); ++i)
         {
-            isNegative = true;
-            i = 1;
+            if (stringToCopyDataFrom[i] >= '0' && stringToCopyDataFrom[i] <= '9')
+                isDigit = true;
+            else if (stringToCopyDataFrom[i] == '.' && !isPoint)
+                isPoint = true;
+            else if (stringToCopyDataFrom[i] != '-' || i != 0)
+                return false;
         }
 
-        for (; i < stringToCopyDataFrom.length(); ++i)
-        {
-            if (stringToCopyDataFrom[i] == '.')
-            {
-                ++i;
-                break;
-            }
-
-            if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            integer *= 10;
-            integer += static_cast<int>(stringToCopyDataFrom[i] - '0');
-        }
+        if (!isDigit) return false;
 
-        T coeff = 1;
-        for (; i < stringToCopyDataFrom.length(); ++i)
-        {
-            if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            coeff /= 10;
-            fractional *= 10;
-            fractional += static_cast<int>(stringToCopyDataFrom[i] - '0');
-        }
+        // Always use point as decimal separator
+        T res = 0;
+        std::istringstream stream(stringToCopyDataFrom);
+        stream.imbue(std::locale::classic());
 
-        data = static_cast<T>(integer) + static_cast<T>(fractional) * coeff;
+        // Check that number fits the type
+        if (!(stream >> res)) return false;
 
-        if (isNegative) data *= -1;
+        data = res;
 
         return true;
     }
-- 
2.43.0


From 1f3bf4ebba68bcd0131c5f8167e30b8e250344f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 33/41] fix: print empty cells for missing keys and no rows for
 zero amountOfRecords

---
 Source/Strings/PrintAsTable.h | 5 ++++-
 Source/Vault.cpp              | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index b03e5aa..94415b9 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -51,6 +51,7 @@ namespace mvlt
         {
             for (const auto& record : container)
             {
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 if (dataString.length() > maxLengths[i]) maxLengths[i] = dataString.length();
             }
@@ -90,9 +91,12 @@ namespace mvlt
         std::size_t counter = 0;
         for (const auto& record : container)
         {
+            if (counter >= amountOfRecords) break;
+
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[i]; ++j) std::cout << " ";
@@ -104,7 +108,6 @@ namespace mvlt
                 std::cout << "\n";
 
             ++counter;
-            if (counter == amountOfRecords) break;
         }
 
         // Print splitter
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 704f0bb..a8dcb0b 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -886,6 +886,7 @@ namespace mvlt
         {
             for (const auto& record : RecordsSet)
             {
+                dataString.clear();
                 record->GetDataAsString(key, dataString);
                 if (dataString.length() > maxLengths[counter]) maxLengths[counter] = dataString.length();   
             }
@@ -941,6 +942,7 @@ namespace mvlt
             std::cout << "|";
             for (const std::string& key : *keysList)
             {
+                dataString.clear();
                 record.GetDataAsString(key, dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[counter]; ++j) std::cout << " ";
-- 
2.43.0


From e980bcc4553a657776531eb749ca830b23737331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 34/41] fix: let an empty data saver be assigned, printed and
 read from string

---
 Source/DataSaver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 4029dab..5fda32f 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -46,6 +46,11 @@ namespace mvlt
             {
                 // If other is empty clear the variables
                 Ptr = nullptr;
+                DataType = typeid(void);
+                CopyFunc = nullptr;
+                ToStringFunc = nullptr;
+                CustomDeleteFunc = nullptr;
+                SetDataFromStringFunc = nullptr;
             }
         }
 
@@ -54,6 +59,8 @@ namespace mvlt
 
     bool DataSaver::SetDataFromString(const std::string& data) noexcept
     {
+        if (SetDataFromStringFunc == nullptr) return false;
+
         return SetDataFromStringFunc(Ptr, data);
     }
 
@@ -86,6 +93,8 @@ namespace mvlt
 
     std::string DataSaver::Str() const noexcept
     {
+        if (ToStringFunc == nullptr) return "";
+
         return ToStringFunc(Ptr);
     }
 
-- 
2.43.0


From 173bfe63ede3a3a3fedf7209da083d347ae42bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 35/41] hook: read small files by chunks when
 MVAULT_VERIF_SMALL_CHUNKS is defined

---
 Source/CsvParser/StreamFileReader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/CsvParser/StreamFileReader.h b/Source/CsvParser/StreamFileReader.h
index 0cca091..698e286 100644
--- a/Source/CsvParser/StreamFileReader.h
+++ b/Source/CsvParser/StreamFileReader.h
@@ -5,8 +5,14 @@
 #include <iostream>
 
 // BIG_FILE_SIZE must be greater then FILE_BLOCK_SIZE
+#ifndef MVAULT_VERIF_SMALL_CHUNKS
 #define FILE_BLOCK_SIZE 4096
 #define BIG_FILE_SIZE 10485760
+#else
+// Sizes for verification builds, so that small files are also read by chunks
+#define FILE_BLOCK_SIZE 16
+#define BIG_FILE_SIZE 64
+#endif
 
 namespace mvlt
 {
-- 
2.43.0


From b5c1b048b6b807278e8cdeba9add2a333ac80316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 36/41] fix: store bool values of a unique key function as
 values

---
 Source/Vault.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index e492a15..79405b2 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -401,9 +401,12 @@ namespace mvlt
                 counter = 0;
                 for (VaultRecord* recordsSetIt : RecordsSet)
                 {
-                    TtoVaultRecordMap->Emplace(cachedData[counter], recordsSetIt);
+                    // std::vector<bool> returns a proxy object, which must not be stored instead of the value
+                    const T& value = cachedData[counter];
+
+                    TtoVaultRecordMap->Emplace(value, recordsSetIt);
                     if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-                        recordsSetIt->SetData(key, cachedData[counter]);
+                        recordsSetIt->SetData(key, value);
 
                     ++counter;
                 }
-- 
2.43.0


From 8efd3e84b9ed1ac7921d40edd196492b0af4c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 37/41] fix: do not read behind the end of a big file

---
 Source/CsvParser/StreamFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index 02b8b6c..4375302 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -111,7 +111,7 @@ namespace mvlt
 
                     if (FileSize - FilePos > FILE_BLOCK_SIZE)
                         File.read(DataChunk, FILE_BLOCK_SIZE);
-                    else
+                    else if (FileSize > FilePos)
                         File.read(DataChunk, FileSize - FilePos);
 
                     // Stop on the last symbol that was read if the file can not be read further
-- 
2.43.0


From 794094f07028bb18159c4cd2f8a254c840031918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 38/41] fix: do not use the debug call trace of a thread after
 its destruction

An object with static or thread storage duration is destroyed after the
thread local trace, and its functions wrote to the freed trace.
---
 Source/BackTrace/BackTrace.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index a57238b..a30d11d 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -2,8 +2,21 @@
 
 namespace mvlt
 {
+    /// Thread local flag, becomes true when the functions call trace of the thread is destroyed.
+    /// Objects with static or thread storage duration can call functions after that
+    thread_local bool IsTraceDestroyed = false;
+
+    /// Class to store functions call trace
+    struct CallTrace : public std::vector<std::string>
+    {
+        ~CallTrace() noexcept
+        {
+            IsTraceDestroyed = true;
+        }
+    };
+
     /// Thread local variable to store functions call trace
-    thread_local std::vector<std::string> Trace;
+    thread_local CallTrace Trace;
 
     BackTraceFormat TraceFormat = BackTraceFormat::Compact;
 
@@ -16,6 +29,8 @@ namespace mvlt
 
     void PrintBackTrace() noexcept
     {
+        if (IsTraceDestroyed) return;
+
         if (TraceFormat != BackTraceFormat::None)
         {
             void* array[TRACE_MAX];
@@ -77,6 +92,8 @@ namespace mvlt
 
     void PrintBackTrace() noexcept
     {
+        if (IsTraceDestroyed) return;
+
         if (TraceFormat != BackTraceFormat::None)
         {
             std::cout << "\t\x1B[33m" << Trace.front() 
@@ -88,11 +105,11 @@ namespace mvlt
 
     TraceLogger::TraceLogger(const std::string& funcName) noexcept : FuncName(funcName)
     {
-        Trace.emplace_back(FuncName);
+        if (!IsTraceDestroyed) Trace.emplace_back(FuncName);
     }
 
     TraceLogger::~TraceLogger() noexcept
     {
-        if (FuncName == Trace.back()) Trace.pop_back();
+        if (!IsTraceDestroyed && FuncName == Trace.back()) Trace.pop_back();
     }
 }
\ No newline at end of file
-- 
2.43.0


From 0da50e85fa81505968f161777d8fb3b40242c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 39/41] fix: store the static type of a value in the data saver

The value is copied as its static type, so the dynamic type of a
polymorphic value must not be used to cast the stored value back.
---
 Source/DataSaver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/DataSaver.h b/Source/DataSaver.h
index 2db6d3a..84ce170 100644
--- a/Source/DataSaver.h
+++ b/Source/DataSaver.h
@@ -146,7 +146,7 @@ namespace mvlt
             Ptr = static_cast<void*>(new T(data));
 
             // Save data type to DataType
-            DataType = typeid(data);
+            DataType = typeid(T);
 
             // Set new CopyFunc. It is get to void pointers and convert void pointers to T pointers and copy data.
             CopyFunc = [](void*& dst, void* src)
@@ -193,9 +193,9 @@ namespace mvlt
         bool GetData(T& data) const noexcept
         {
             // Check data type stored in DataSaver
-            if (DataType != typeid(data))
+            if (DataType != typeid(T))
             {
-                std::cerr << "Wrong type! Was: " + std::string(DataType.name()) + " Requested: " + typeid(data).name() << "\n";
+                std::cerr << "Wrong type! Was: " + std::string(DataType.name()) + " Requested: " + typeid(T).name() << "\n";
                 return false;
             }
 
-- 
2.43.0


From 47f2ac18daa6cecdc25ad3d576af733d2dfc6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 40/41] fix: let a file reader be opened again

---
 Source/CsvParser/StreamFileReader.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index 4375302..fd6bc4c 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -11,6 +11,15 @@ namespace mvlt
 
     bool StreamFileReader::Open(const std::string& fileName) noexcept
     {
+        // Nothing should be left of the previous file if the reader is used again
+        if (File.is_open()) File.close();
+
+        delete[] Data;
+        Data = nullptr;
+        FileSize = 0;
+        FilePos = 0;
+        ChunkPos = 1;
+
         File.open(fileName, std::ios::binary | std::ios::ate);
         if (!File.is_open()) return false;
 
-- 
2.43.0


From 5c017593ecb59dee322edfa2d768b463276dc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:36 +0000
Subject: [PATCH 41/41] fix: convert floating point values to text
 independently of the locale

---
 Source/Strings/ToString.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/Source/Strings/ToString.h b/Source/Strings/ToString.h
index c78eb11..18d9617 100644
--- a/Source/Strings/ToString.h
+++ b/Source/Strings/ToString.h
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <locale>
 #include <string>
 #include <cstdint>
+#include <sstream>
 
 namespace mvlt
 {
@@ -229,6 +231,27 @@ namespace mvlt
         return data;
     }
 
+    /**
+        \brief Function for converting floating point values to a string
+
+        The text does not depend on the locale of the program, so it can always be read by the FromString function and used in json.
+        Otherwise it is the text that std::to_string would return
+
+        \tparam <T> float or double
+
+        \param [in] data the variable to be converted to a string
+
+        \return Fixed point notation of data with six decimal places
+    */
+    template <class T>
+    inline std::string ToStringDoubleAndFloat(const T& data) noexcept
+    {
+        std::ostringstream stream;
+        stream.imbue(std::locale::classic());
+        stream << std::fixed << data;
+        return stream.str();
+    }
+
     /**
         \brief Specialization of the ToString method for the float type
 
@@ -236,12 +259,12 @@ namespace mvlt
 
         \param [in] data the variable to be converted to a string
 
-        \return result of std::to_string function
+        \return result of ToStringDoubleAndFloat function
     */
     template <>
     inline std::string ToString(const float& data) noexcept
     {
-        return std::to_string(data);
+        return ToStringDoubleAndFloat(data);
     }
 
     /**
@@ -251,12 +274,12 @@ namespace mvlt
 
         \param [in] data the variable to be converted to a string
 
-        \return result of std::to_string function
+        \return result of ToStringDoubleAndFloat function
     */
     template <>
     inline std::string ToString(const double& data) noexcept
     {
-        return std::to_string(data);
+        return ToStringDoubleAndFloat(data);
     }
 
     /**@} */
-- 
2.43.0

