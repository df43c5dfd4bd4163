// Dumps Unicode 13 (Java 17) per code point: cp gc bc script block mirrored lower upper title nfd nfkd alpha ideo fullupper fulllower digit
import java.text.Normalizer;
import java.util.Locale;
public class Dump {
    static final String[] GC = new String[32];
    static String hex(String s) { StringBuilder b = new StringBuilder(); s.codePoints().forEach(c -> { if (b.length() > 0) b.append(' '); b.append(Integer.toHexString(c)); }); return b.toString(); }
    public static void main(String[] a) {
        String[] g = {"Cn","Lu","Ll","Lt","Lm","Lo","Mn","Me","Mc","Nd","Nl","No","Zs","Zl","Zp","Cc","Cf","?","Co","Cs","Pd","Ps","Pe","Pc","Po","Sm","Sc","Sk","So","Pi","Pf"};
        int[] jg = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30};
        String[] dir = {"L","R","AL","EN","ES","ET","AN","CS","NSM","BN","B","S","WS","ON","LRE","LRO","RLE","RLO","PDF","LRI","RLI","FSI","PDI"};
        StringBuilder o = new StringBuilder();
        for (int c = 0; c <= 0x10FFFF; c++) {
            String s = new String(Character.toChars(c));
            boolean sur = c >= 0xD800 && c <= 0xDFFF;
            int d = Character.getDirectionality(c);
            Character.UnicodeBlock b = Character.UnicodeBlock.of(c);
            o.append(Integer.toHexString(c)).append('\t').append(g[Character.getType(c)]).append('\t').append(d < 0 ? "?" : dir[d]).append('\t')
             .append(Character.UnicodeScript.of(c)).append('\t').append(b == null ? "NB" : b.toString()).append('\t').append(Character.isMirrored(c) ? 1 : 0).append('\t')
             .append(Integer.toHexString(Character.toLowerCase(c))).append('\t').append(Integer.toHexString(Character.toUpperCase(c))).append('\t').append(Integer.toHexString(Character.toTitleCase(c))).append('\t')
             .append(sur ? "" : hex(Normalizer.normalize(s, Normalizer.Form.NFD))).append('\t').append(sur ? "" : hex(Normalizer.normalize(s, Normalizer.Form.NFKD))).append('\t')
             .append(Character.isAlphabetic(c) ? 1 : 0).append('\t').append(Character.isIdeographic(c) ? 1 : 0).append('\t')
             .append(sur ? "" : hex(s.toUpperCase(Locale.ROOT))).append('\t').append(sur ? "" : hex(s.toLowerCase(Locale.ROOT))).append('\t').append(Character.digit(c, 10)).append('\n');
        }
        System.out.print(o);
    }
}
