# Dumps properties of Unicode (perl's version) as inversion maps: PROP <tab> start <tab> short value
use strict; use warnings;
use Unicode::UCD qw(prop_invmap prop_value_aliases prop_invlist charblock);
binmode STDOUT, ":utf8";
for my $p (qw(age gc sc blk ea lb sb wb gcb dt nt bc jt jg bpt)) {
    my ($l, $m, $f, $d) = prop_invmap($p);
    die "$p" unless defined $f;
    for my $i (0 .. $#$l) {
        my $v = $m->[$i];
        my ($short) = prop_value_aliases($p, $v);
        $short = $v unless defined $short;
        printf "%s\t%X\t%s\n", $p, $l->[$i], $short;
    }
}
for my $p (qw(nv)) {
    my ($l, $m, $f, $d) = prop_invmap($p);
    print STDERR "$p $f $d\n";
    for my $i (0 .. $#$l) { printf "%s\t%X\t%s\n", $p, $l->[$i], ref $m->[$i] ? join(" ", @{$m->[$i]}) : $m->[$i]; }
}
for my $p (qw(bmg bpb slc suc stc lc uc tc)) {
    my ($l, $m, $f, $d) = prop_invmap($p);
    print STDERR "$p $f $d\n";
    for my $i (0 .. $#$l) { printf "%s\t%X\t%s\n", $p, $l->[$i], ref $m->[$i] ? join(" ", map {sprintf "%X", $_} @{$m->[$i]}) : ($m->[$i] eq "" ? "-" : $m->[$i] =~ /^-?\d+$/ ? sprintf("+%d", $m->[$i]) : $m->[$i]); }
}
for my $p (qw(WSpace Dash Hyphen QMark Term Math Hex AHex Alpha Ideo Dia Ext NChar Gr_Ext Gr_Link IDSB IDST Radical UIdeo DI Dep LOE XIDS XIDC IDS IDC Gr_Base STerm VS Pat_Syn Pat_WS PCM ExtPict EComp Emoji EPres EMod EBase Join_C Bidi_C Bidi_M)) {
    my @l = prop_invlist($p);
    unless (@l) { print STDERR "no $p\n"; next; }
    for my $i (0 .. $#l) { printf "%s\t%X\t%s\n", $p, $l[$i], $i % 2 ? "N" : "Y"; }
}
