#!/usr/bin/env python3
"""Writes spec/NameLabels.tla: the English names of the attribute types of names (X.520, RFC 4519, RFC 5280, CA/Browser Forum,
TCG), as character codes, and the order in which attributes are put in a name that is built.  Run once; the result is reviewed."""
import os
ORDER = '''incorporation_country=Incorporation Country
incorporation_state_or_province=Incorporation State/Province
incorporation_locality=Incorporation Locality
business_category=Business Category
serial_number=Serial Number
country_name=Country
postal_code=Postal Code
state_or_province_name=State/Province
locality_name=Locality
street_address=Street Address
organization_name=Organization
organizational_unit_name=Organizational Unit
title=Title
common_name=Common Name
user_id=User ID
initials=Initials
generation_qualifier=Generation Qualifier
surname=Surname
given_name=Given Name
name=Name
pseudonym=Pseudonym
dn_qualifier=DN Qualifier
telephone_number=Telephone Number
email_address=Email Address
domain_component=Domain Component
name_distinguisher=Name Distinguisher
organization_identifier=Organization Identifier
tpm_manufacturer=TPM Manufacturer
tpm_model=TPM Model
tpm_version=TPM Version
platform_manufacturer=Platform Manufacturer
platform_model=Platform Model
platform_version=Platform Version
unique_identifier=Unique Identifier'''
rows = [l.split('=') for l in ORDER.split('\n')]
out = '''----------------------------- MODULE NameLabels -----------------------------
(* Written by tools/mklabels.py: attribute types in the order of a built      *)
(* name, and their names in words.                                            *)
EXTENDS TLC
Order == <<%s>>
LabelOf == %s
=============================================================================
''' % (', '.join('"%s"' % a for a, _ in rows), ' @@\n  '.join('("%s" :> <<%s>>)' % (a, ', '.join(str(ord(c)) for c in b)) for a, b in rows))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'NameLabels.tla'), 'w').write(out)
