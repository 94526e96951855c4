# EXTRA and NA entries
