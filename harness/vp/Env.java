package vp;

import java.util.Locale;
import java.util.TimeZone;

/** The surroundings of a call: default locale and time zone, which must not matter (other than for what day today is). */
final class Env {
    private static final String[] LOCALES = {"tr-TR", "az-Latn-AZ", "lt-LT", "de-DE", "fr-FR", "ar-EG-u-nu-arab", "fa-IR-u-nu-arabext", "th-TH-u-ca-buddhist", "ja-JP-u-ca-japanese", "hi-IN-u-nu-deva",
                                             "th-TH-u-nu-thai", "el-GR", "sv-SE", "ar-SA-u-ca-islamic"};
    private static final String[] ZONES = {"Pacific/Kiritimati", "Etc/GMT+12", "Asia/Kathmandu", "America/New_York", "America/Sao_Paulo", "Pacific/Apia", "Europe/London", "Asia/Kolkata",
                                           "America/St_Johns", "Pacific/Auckland", "Asia/Tokyo", "America/Los_Angeles"};
    private static final Locale LOCALE = Locale.ENGLISH;
    private static final TimeZone ZONE = TimeZone.getTimeZone("UTC");

    private Env() {
    }

    /** some surroundings for one call: mostly the usual ones */
    static void vary(final Rng r, final int percent) {
        Locale.setDefault(r.chance(percent) ? Locale.forLanguageTag(r.pick(LOCALES)) : LOCALE);
        TimeZone.setDefault(r.chance(percent) ? TimeZone.getTimeZone(r.pick(ZONES)) : ZONE);
    }

    static void reset() {
        Locale.setDefault(LOCALE);
        TimeZone.setDefault(ZONE);
    }
}
