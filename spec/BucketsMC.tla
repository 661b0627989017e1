------------------------------ MODULE BucketsMC ------------------------------
EXTENDS Buckets
TinySizes == <<2, 3, 5, 8, 13>>
=============================================================================
