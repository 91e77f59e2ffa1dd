// One large keyword set, not in any order, with some very long words.
parsel::define_keywords! {
    mod big {
        GROLIMCRE => K0;
        FROLONO => K1;
        Frounre => K2;
        ingro => K3;
        tu => K4;
        sel => K5;
        wheord => K6;
        nosel => K7;
        inno => K8;
        kaordmi => K9;
        noter => K10;
        Lim => K11;
        limunka => K12;
        refro => K13;
        cregro => K14;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K15;
        whelo => K16;
        limtuord_21 => K17;
        wheno => K18;
        Terno => K19;
        unlofro => K20;
        intulolo => K21;
        tuinreno => K22;
        tual => K23;
        alterord => K24;
        reun => K25;
        ordnomi => K26;
        limmilim => K27;
        groter => K28;
        noka => K29;
        alwhe => K30;
        grolim => K31;
        allim => K32;
        sellim => K33;
        innocrein => K34;
        kasel => K35;
        nolo => K36;
        reord => K37;
        Allimun => K38;
        FROLIM => K39;
        groinre => K40;
        wherewhe => K41;
        tuin => K42;
        tunoun => K43;
        milimka => K44;
        tuordun => K45;
        ununno => K46;
        groinka => K47;
        TUTER => K48;
        alfrowhelo_17 => K49;
        grofroter => K50;
        whewhe => K51;
        rekatu => K52;
        creka => K53;
        tuloka => K54;
        selkainin => K55;
        terunterun => K56;
        miwheka => K57;
        whetuno => K58;
        tuin_7 => K59;
        Mimi => K60;
        INMIUNTER => K61;
        fro => K62;
        WHEAL => K63;
        NOINNO => K64;
        lore => K65;
        REUNTU => K66;
        ord => K67;
        limlotuwhe => K68;
        frogromi => K69;
        tufrolim => K70;
        ORD => K71;
        lomirecre => K72;
        ORDRECRE => K73;
        unlotuin => K74;
        terseltuun => K75;
        LIMUNUN => K76;
        whein_18 => K77;
        NOUN => K78;
        lo => K79;
        limkain => K80;
        ORDALAL => K81;
        nomi => K82;
        grore => K83;
        loter => K84;
        loka => K85;
        losel => K86;
        unlimwhe_22 => K87;
        nofrono => K88;
        GROKAAL => K89;
        innololo => K90;
        remi_15 => K91;
        gro => K92;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K93;
        Fromiord => K94;
        misel => K95;
        uncretu => K96;
        Froretu => K97;
        UNORD => K98;
        miterfro => K99;
        Frogroloter => K100;
        Whelim => K101;
        unka => K102;
        kaaltu => K103;
        loingrore => K104;
        whe => K105;
        lomi_3 => K106;
        kafrocre => K107;
        no => K108;
        ininre => K109;
        INNOAL => K110;
        NOTERTERKA => K111;
        LOSELKA => K112;
        froterlim => K113;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K114;
        whecre => K115;
        frolo => K116;
        TERUN => K117;
        unre => K118;
        terter => K119;
        karecre => K120;
        terunal => K121;
        Lotuinlim => K122;
        SELWHEWHE => K123;
        lim => K124;
        whekagro_2 => K125;
        whelimselter => K126;
        inunka => K127;
        selordun => K128;
        limfroresel => K129;
        NO => K130;
        nofromi => K131;
        ininfro => K132;
        INGRO => K133;
        NOIN => K134;
        ordre => K135;
        TER => K136;
        miordsel => K137;
        TERRE => K138;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K139;
        noremiord => K140;
        ordnore => K141;
        limno => K142;
        LIM => K143;
        ter => K144;
        whekare => K145;
        ORDUN => K146;
        mirewhe_13 => K147;
        Tu => K148;
        innoun => K149;
        mika => K150;
        tercrekalo => K151;
        loselka => K152;
        unkano => K153;
        milimsel => K154;
        wheka => K155;
        MIMIUN => K156;
        tuselka => K157;
        TUALFRO => K158;
        kaka => K159;
        limordseltu => K160;
        MIWHERE => K161;
        limwhelim => K162;
        TUGRO => K163;
        UN => K164;
        lokaka => K165;
        frowhelo => K166;
        kawhe => K167;
        Whenomi => K168;
        CREUN => K169;
        WHELIMIN => K170;
        MITER => K171;
        SELALLO => K172;
        re => K173;
        alno => K174;
        reka => K175;
        lokainre => K176;
        froremi_22 => K177;
        whecremi => K178;
        Whegroal => K179;
        creter => K180;
        ordsel => K181;
        inalcreun => K182;
        CREALLIMKA => K183;
        tercre => K184;
        noingroord => K185;
        cregro_26 => K186;
        noloun => K187;
        ordin_2 => K188;
        al_18 => K189;
        wherecre_12 => K190;
        un => K191;
        loselcre => K192;
        selord_9 => K193;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K194;
        al => K195;
        cregrowheno => K196;
        retuselal => K197;
        Tufro => K198;
        groalno => K199;
        limlo => K200;
        wheordlo => K201;
        limtuwhe => K202;
        wheinalord => K203;
        kanoterka => K204;
        lofro => K205;
        nono => K206;
        reuninfro => K207;
        micre => K208;
        LOGROCREKA => K209;
        AL => K210;
        reno => K211;
        WHECREMI => K212;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K213;
        alselkaal_10 => K214;
        relim => K215;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K216;
        IN => K217;
        unun => K218;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K219;
        selseltuun => K220;
        alcre => K221;
        gromifroin => K222;
        alselselord => K223;
        reinlimtu => K224;
        inrekaal => K225;
        Ter => K226;
        ordinno => K227;
        terfromi_23 => K228;
        recre => K229;
        milotercre => K230;
        groalmi => K231;
        WHE => K232;
        wheinre => K233;
        sellim_27 => K234;
        ordloal => K235;
        whegro => K236;
        cremicre => K237;
        UNINRE => K238;
        ordlowhe => K239;
        mi => K240;
        froloin => K241;
        creunalal => K242;
        mire => K243;
        unordgrosel => K244;
        REWHEUN => K245;
        unfro => K246;
        LIMNOKA => K247;
        Logroter => K248;
        ordord_3 => K249;
        REWHE => K250;
        ordgro => K251;
        nofroter => K252;
        GRO => K253;
        remi => K254;
        terkaka => K255;
        grosel => K256;
        Kasel => K257;
        mifro => K258;
        whetu => K259;
        terfroal_5 => K260;
        alrelim => K261;
        nowhe => K262;
        ordtusel => K263;
        ka => K264;
        grono => K265;
        LIMWHEREFRO => K266;
        groun => K267;
        Tuunter => K268;
        limin => K269;
        frolowhe => K270;
        noalter => K271;
        wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww => K272;
        Ordfro => K273;
        ALKATU => K274;
        turelomi => K275;
        creordfrono => K276;
        ORDLOORD => K277;
        Frofro => K278;
        terfroord => K279;
        retu => K280;
        FROWHE => K281;
        tergrore_21 => K282;
        Ordord => K283;
        inunkare => K284;
        mirekaord => K285;
        TULIMWHEGRO => K286;
        crekaal => K287;
        Whe => K288;
        rerefro => K289;
        ordfroord => K290;
        tergromi => K291;
        wheinlo_5 => K292;
        limfro => K293;
        alter => K294;
        LIMTER => K295;
        whemial => K296;
        fromicregro => K297;
        lolimlim => K298;
    }
}
pub const BIG: &[&str] = &[
    "GROLIMCRE",
    "FROLONO",
    "Frounre",
    "ingro",
    "tu",
    "sel",
    "wheord",
    "nosel",
    "inno",
    "kaordmi",
    "noter",
    "Lim",
    "limunka",
    "refro",
    "cregro",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "whelo",
    "limtuord_21",
    "wheno",
    "Terno",
    "unlofro",
    "intulolo",
    "tuinreno",
    "tual",
    "alterord",
    "reun",
    "ordnomi",
    "limmilim",
    "groter",
    "noka",
    "alwhe",
    "grolim",
    "allim",
    "sellim",
    "innocrein",
    "kasel",
    "nolo",
    "reord",
    "Allimun",
    "FROLIM",
    "groinre",
    "wherewhe",
    "tuin",
    "tunoun",
    "milimka",
    "tuordun",
    "ununno",
    "groinka",
    "TUTER",
    "alfrowhelo_17",
    "grofroter",
    "whewhe",
    "rekatu",
    "creka",
    "tuloka",
    "selkainin",
    "terunterun",
    "miwheka",
    "whetuno",
    "tuin_7",
    "Mimi",
    "INMIUNTER",
    "fro",
    "WHEAL",
    "NOINNO",
    "lore",
    "REUNTU",
    "ord",
    "limlotuwhe",
    "frogromi",
    "tufrolim",
    "ORD",
    "lomirecre",
    "ORDRECRE",
    "unlotuin",
    "terseltuun",
    "LIMUNUN",
    "whein_18",
    "NOUN",
    "lo",
    "limkain",
    "ORDALAL",
    "nomi",
    "grore",
    "loter",
    "loka",
    "losel",
    "unlimwhe_22",
    "nofrono",
    "GROKAAL",
    "innololo",
    "remi_15",
    "gro",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "Fromiord",
    "misel",
    "uncretu",
    "Froretu",
    "UNORD",
    "miterfro",
    "Frogroloter",
    "Whelim",
    "unka",
    "kaaltu",
    "loingrore",
    "whe",
    "lomi_3",
    "kafrocre",
    "no",
    "ininre",
    "INNOAL",
    "NOTERTERKA",
    "LOSELKA",
    "froterlim",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "whecre",
    "frolo",
    "TERUN",
    "unre",
    "terter",
    "karecre",
    "terunal",
    "Lotuinlim",
    "SELWHEWHE",
    "lim",
    "whekagro_2",
    "whelimselter",
    "inunka",
    "selordun",
    "limfroresel",
    "NO",
    "nofromi",
    "ininfro",
    "INGRO",
    "NOIN",
    "ordre",
    "TER",
    "miordsel",
    "TERRE",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "noremiord",
    "ordnore",
    "limno",
    "LIM",
    "ter",
    "whekare",
    "ORDUN",
    "mirewhe_13",
    "Tu",
    "innoun",
    "mika",
    "tercrekalo",
    "loselka",
    "unkano",
    "milimsel",
    "wheka",
    "MIMIUN",
    "tuselka",
    "TUALFRO",
    "kaka",
    "limordseltu",
    "MIWHERE",
    "limwhelim",
    "TUGRO",
    "UN",
    "lokaka",
    "frowhelo",
    "kawhe",
    "Whenomi",
    "CREUN",
    "WHELIMIN",
    "MITER",
    "SELALLO",
    "re",
    "alno",
    "reka",
    "lokainre",
    "froremi_22",
    "whecremi",
    "Whegroal",
    "creter",
    "ordsel",
    "inalcreun",
    "CREALLIMKA",
    "tercre",
    "noingroord",
    "cregro_26",
    "noloun",
    "ordin_2",
    "al_18",
    "wherecre_12",
    "un",
    "loselcre",
    "selord_9",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "al",
    "cregrowheno",
    "retuselal",
    "Tufro",
    "groalno",
    "limlo",
    "wheordlo",
    "limtuwhe",
    "wheinalord",
    "kanoterka",
    "lofro",
    "nono",
    "reuninfro",
    "micre",
    "LOGROCREKA",
    "AL",
    "reno",
    "WHECREMI",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "alselkaal_10",
    "relim",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "IN",
    "unun",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "selseltuun",
    "alcre",
    "gromifroin",
    "alselselord",
    "reinlimtu",
    "inrekaal",
    "Ter",
    "ordinno",
    "terfromi_23",
    "recre",
    "milotercre",
    "groalmi",
    "WHE",
    "wheinre",
    "sellim_27",
    "ordloal",
    "whegro",
    "cremicre",
    "UNINRE",
    "ordlowhe",
    "mi",
    "froloin",
    "creunalal",
    "mire",
    "unordgrosel",
    "REWHEUN",
    "unfro",
    "LIMNOKA",
    "Logroter",
    "ordord_3",
    "REWHE",
    "ordgro",
    "nofroter",
    "GRO",
    "remi",
    "terkaka",
    "grosel",
    "Kasel",
    "mifro",
    "whetu",
    "terfroal_5",
    "alrelim",
    "nowhe",
    "ordtusel",
    "ka",
    "grono",
    "LIMWHEREFRO",
    "groun",
    "Tuunter",
    "limin",
    "frolowhe",
    "noalter",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww",
    "Ordfro",
    "ALKATU",
    "turelomi",
    "creordfrono",
    "ORDLOORD",
    "Frofro",
    "terfroord",
    "retu",
    "FROWHE",
    "tergrore_21",
    "Ordord",
    "inunkare",
    "mirekaord",
    "TULIMWHEGRO",
    "crekaal",
    "Whe",
    "rerefro",
    "ordfroord",
    "tergromi",
    "wheinlo_5",
    "limfro",
    "alter",
    "LIMTER",
    "whemial",
    "fromicregro",
    "lolimlim",
];
/// checks the set and some of its keyword types
pub fn check(c: &vh::kws::Case) -> vh::run::R {
    vh::kws::set::<big::Keywords>("big", BIG, c)?;
    vh::kws::keyword::<big::K0>("big::K0", c)?;
    vh::kws::keyword::<big::K1>("big::K1", c)?;
    vh::kws::keyword::<big::K15>("big::K15", c)?;
    vh::kws::keyword::<big::K16>("big::K16", c)?;
    vh::kws::keyword::<big::K17>("big::K17", c)?;
    vh::kws::keyword::<big::K63>("big::K63", c)?;
    vh::kws::keyword::<big::K64>("big::K64", c)?;
    vh::kws::keyword::<big::K93>("big::K93", c)?;
    vh::kws::keyword::<big::K114>("big::K114", c)?;
    vh::kws::keyword::<big::K127>("big::K127", c)?;
    vh::kws::keyword::<big::K128>("big::K128", c)?;
    vh::kws::keyword::<big::K139>("big::K139", c)?;
    vh::kws::keyword::<big::K194>("big::K194", c)?;
    vh::kws::keyword::<big::K200>("big::K200", c)?;
    vh::kws::keyword::<big::K213>("big::K213", c)?;
    vh::kws::keyword::<big::K216>("big::K216", c)?;
    vh::kws::keyword::<big::K219>("big::K219", c)?;
    vh::kws::keyword::<big::K254>("big::K254", c)?;
    vh::kws::keyword::<big::K255>("big::K255", c)?;
    vh::kws::keyword::<big::K256>("big::K256", c)?;
    vh::kws::keyword::<big::K257>("big::K257", c)?;
    vh::kws::keyword::<big::K272>("big::K272", c)?;
    vh::kws::keyword::<big::K298>("big::K298", c)?;
    Ok(())
}
vh::kwd!(big::K0, "GROLIMCRE");
vh::kwd!(big::K1, "FROLONO");
vh::kwd!(big::K15, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K16, "whelo");
vh::kwd!(big::K17, "limtuord_21");
vh::kwd!(big::K63, "WHEAL");
vh::kwd!(big::K64, "NOINNO");
vh::kwd!(big::K93, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K114, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K127, "inunka");
vh::kwd!(big::K128, "selordun");
vh::kwd!(big::K139, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K194, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K200, "limlo");
vh::kwd!(big::K213, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K216, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K219, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K254, "remi");
vh::kwd!(big::K255, "terkaka");
vh::kwd!(big::K256, "grosel");
vh::kwd!(big::K257, "Kasel");
vh::kwd!(big::K272, "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww");
vh::kwd!(big::K298, "lolimlim");
