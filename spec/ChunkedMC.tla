------------------------------ MODULE ChunkedMC ------------------------------
EXTENDS Chunked
Few == {<<0, 1>>, <<1, 1>>, <<4, 1>>}
More == {<<0, 1>>, <<1, 1>>, <<-3, 1>>, <<1, 2>>, <<0, 0>>}
==============================================================================
