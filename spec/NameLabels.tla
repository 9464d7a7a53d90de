----------------------------- MODULE NameLabels -----------------------------
(* Written by tools/mklabels.py: attribute types in the order of a built      *)
(* name, and their names in words.                                            *)
EXTENDS TLC
Order == <<"incorporation_country", "incorporation_state_or_province", "incorporation_locality", "business_category", "serial_number", "country_name", "postal_code", "state_or_province_name", "locality_name", "street_address", "organization_name", "organizational_unit_name", "title", "common_name", "user_id", "initials", "generation_qualifier", "surname", "given_name", "name", "pseudonym", "dn_qualifier", "telephone_number", "email_address", "domain_component", "name_distinguisher", "organization_identifier", "tpm_manufacturer", "tpm_model", "tpm_version", "platform_manufacturer", "platform_model", "platform_version", "unique_identifier">>
LabelOf == ("incorporation_country" :> <<73, 110, 99, 111, 114, 112, 111, 114, 97, 116, 105, 111, 110, 32, 67, 111, 117, 110, 116, 114, 121>>) @@
  ("incorporation_state_or_province" :> <<73, 110, 99, 111, 114, 112, 111, 114, 97, 116, 105, 111, 110, 32, 83, 116, 97, 116, 101, 47, 80, 114, 111, 118, 105, 110, 99, 101>>) @@
  ("incorporation_locality" :> <<73, 110, 99, 111, 114, 112, 111, 114, 97, 116, 105, 111, 110, 32, 76, 111, 99, 97, 108, 105, 116, 121>>) @@
  ("business_category" :> <<66, 117, 115, 105, 110, 101, 115, 115, 32, 67, 97, 116, 101, 103, 111, 114, 121>>) @@
  ("serial_number" :> <<83, 101, 114, 105, 97, 108, 32, 78, 117, 109, 98, 101, 114>>) @@
  ("country_name" :> <<67, 111, 117, 110, 116, 114, 121>>) @@
  ("postal_code" :> <<80, 111, 115, 116, 97, 108, 32, 67, 111, 100, 101>>) @@
  ("state_or_province_name" :> <<83, 116, 97, 116, 101, 47, 80, 114, 111, 118, 105, 110, 99, 101>>) @@
  ("locality_name" :> <<76, 111, 99, 97, 108, 105, 116, 121>>) @@
  ("street_address" :> <<83, 116, 114, 101, 101, 116, 32, 65, 100, 100, 114, 101, 115, 115>>) @@
  ("organization_name" :> <<79, 114, 103, 97, 110, 105, 122, 97, 116, 105, 111, 110>>) @@
  ("organizational_unit_name" :> <<79, 114, 103, 97, 110, 105, 122, 97, 116, 105, 111, 110, 97, 108, 32, 85, 110, 105, 116>>) @@
  ("title" :> <<84, 105, 116, 108, 101>>) @@
  ("common_name" :> <<67, 111, 109, 109, 111, 110, 32, 78, 97, 109, 101>>) @@
  ("user_id" :> <<85, 115, 101, 114, 32, 73, 68>>) @@
  ("initials" :> <<73, 110, 105, 116, 105, 97, 108, 115>>) @@
  ("generation_qualifier" :> <<71, 101, 110, 101, 114, 97, 116, 105, 111, 110, 32, 81, 117, 97, 108, 105, 102, 105, 101, 114>>) @@
  ("surname" :> <<83, 117, 114, 110, 97, 109, 101>>) @@
  ("given_name" :> <<71, 105, 118, 101, 110, 32, 78, 97, 109, 101>>) @@
  ("name" :> <<78, 97, 109, 101>>) @@
  ("pseudonym" :> <<80, 115, 101, 117, 100, 111, 110, 121, 109>>) @@
  ("dn_qualifier" :> <<68, 78, 32, 81, 117, 97, 108, 105, 102, 105, 101, 114>>) @@
  ("telephone_number" :> <<84, 101, 108, 101, 112, 104, 111, 110, 101, 32, 78, 117, 109, 98, 101, 114>>) @@
  ("email_address" :> <<69, 109, 97, 105, 108, 32, 65, 100, 100, 114, 101, 115, 115>>) @@
  ("domain_component" :> <<68, 111, 109, 97, 105, 110, 32, 67, 111, 109, 112, 111, 110, 101, 110, 116>>) @@
  ("name_distinguisher" :> <<78, 97, 109, 101, 32, 68, 105, 115, 116, 105, 110, 103, 117, 105, 115, 104, 101, 114>>) @@
  ("organization_identifier" :> <<79, 114, 103, 97, 110, 105, 122, 97, 116, 105, 111, 110, 32, 73, 100, 101, 110, 116, 105, 102, 105, 101, 114>>) @@
  ("tpm_manufacturer" :> <<84, 80, 77, 32, 77, 97, 110, 117, 102, 97, 99, 116, 117, 114, 101, 114>>) @@
  ("tpm_model" :> <<84, 80, 77, 32, 77, 111, 100, 101, 108>>) @@
  ("tpm_version" :> <<84, 80, 77, 32, 86, 101, 114, 115, 105, 111, 110>>) @@
  ("platform_manufacturer" :> <<80, 108, 97, 116, 102, 111, 114, 109, 32, 77, 97, 110, 117, 102, 97, 99, 116, 117, 114, 101, 114>>) @@
  ("platform_model" :> <<80, 108, 97, 116, 102, 111, 114, 109, 32, 77, 111, 100, 101, 108>>) @@
  ("platform_version" :> <<80, 108, 97, 116, 102, 111, 114, 109, 32, 86, 101, 114, 115, 105, 111, 110>>) @@
  ("unique_identifier" :> <<85, 110, 105, 113, 117, 101, 32, 73, 100, 101, 110, 116, 105, 102, 105, 101, 114>>)
=============================================================================
