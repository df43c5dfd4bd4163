# Value aliases of enumerated properties (perl's Unicode): PROP <tab> short <tab> other names ...
use strict; use warnings;
use Unicode::UCD qw(prop_values prop_value_aliases);
for my $p (qw(bc blk dt ea gc GCB hst InPC InSC jg jt lb nt SB sc vo WB)) {
    for my $v (prop_values($p)) { print join("\t", $p, prop_value_aliases($p, $v)), "\n"; }
}
