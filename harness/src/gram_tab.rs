// Generated by tools/gen_grammar.py from oracle/grammar.bnf.
use scilla_parser::parser::lexer::Token;
pub const NTERM: u32 = 59;
pub const UNKNOWN: u8 = 59;
pub const EOF: u8 = 60;
pub const K_PLUS: u8 = 0;
pub const K_ASTERISK: u8 = 1;
pub const K_SEMICOLON: u8 = 2;
pub const K_COLON: u8 = 3;
pub const K_DOT: u8 = 4;
pub const K_PIPE: u8 = 5;
pub const K_OPENBRACKET: u8 = 6;
pub const K_CLOSEBRACKET: u8 = 7;
pub const K_OPENPAREN: u8 = 8;
pub const K_CLOSEPAREN: u8 = 9;
pub const K_OPENBRACE: u8 = 10;
pub const K_CLOSEBRACE: u8 = 11;
pub const K_COMMA: u8 = 12;
pub const K_DOUBLEARROW: u8 = 13;
pub const K_ARROW: u8 = 14;
pub const K_EQUALS: u8 = 15;
pub const K_AMPERSAND: u8 = 16;
pub const K_LEFTARROW: u8 = 17;
pub const K_COLONEQUALS: u8 = 18;
pub const K_AT: u8 = 19;
pub const K_MINUS: u8 = 20;
pub const K_UNDERSCORE: u8 = 21;
pub const K_FORALL: u8 = 22;
pub const K_BUILTIN: u8 = 23;
pub const K_LIBRARY: u8 = 24;
pub const K_IMPORT: u8 = 25;
pub const K_LET: u8 = 26;
pub const K_IN: u8 = 27;
pub const K_MATCH: u8 = 28;
pub const K_WITH: u8 = 29;
pub const K_END: u8 = 30;
pub const K_FUN: u8 = 31;
pub const K_TFUN: u8 = 32;
pub const K_CONTRACT: u8 = 33;
pub const K_TRANSITION: u8 = 34;
pub const K_SEND: u8 = 35;
pub const K_EVENT: u8 = 36;
pub const K_EVENTTYPE: u8 = 37;
pub const K_FIELD: u8 = 38;
pub const K_ACCEPT: u8 = 39;
pub const K_EXISTS: u8 = 40;
pub const K_DELETE: u8 = 41;
pub const K_THROW: u8 = 42;
pub const K_MAP: u8 = 43;
pub const K_SCILLAVERSION: u8 = 44;
pub const K_TYPE: u8 = 45;
pub const K_OF: u8 = 46;
pub const K_AS: u8 = 47;
pub const K_PROCEDURE: u8 = 48;
pub const K_EMP: u8 = 49;
pub const K_BYSTR: u8 = 50;
pub const K_BYSTRWITHSIZE: u8 = 51;
pub const K_NUMBER: u8 = 52;
pub const K_HEXNUMBER: u8 = 53;
pub const K_STRINGLITERAL: u8 = 54;
pub const K_IDENTIFIER: u8 = 55;
pub const K_SPECIALIDENTIFIER: u8 = 56;
pub const K_CUSTOMIDENTIFIER: u8 = 57;
pub const K_TEMPLATEIDENTIFIER: u8 = 58;
pub static SPELL: [&str; 61] = ["+", "*", ";", ":", ".", "|", "[", "]", "(", ")", "{", "}", ",", "=>", "->", "=", "&", "<-", ":=", "@", "-", "_", "forall", "builtin", "library", "import", "let", "in", "match", "with", "end", "fun", "tfun", "contract", "transition", "send", "event", "Event", "field", "accept", "exists", "delete", "throw", "Map", "scilla_version", "type", "of", "as", "procedure", "Emp", "ByStr", "<BYSTRN>", "<NUMBER>", "<HEX>", "<STRING>", "<ID>", "<SPID>", "<CID>", "<TID>", "<UNKNOWN>", "<EOF>"];
pub const NFIXED: u8 = 51;
pub static FIXED: [Token<&str>; 51] = [Token::Plus, Token::Asterisk, Token::Semicolon, Token::Colon, Token::Dot, Token::Pipe, Token::OpenBracket, Token::CloseBracket, Token::OpenParen, Token::CloseParen, Token::OpenBrace, Token::CloseBrace, Token::Comma, Token::DoubleArrow, Token::Arrow, Token::Equals, Token::Ampersand, Token::LeftArrow, Token::ColonEquals, Token::At, Token::Minus, Token::Underscore, Token::Forall, Token::Builtin, Token::Library, Token::Import, Token::Let, Token::In, Token::Match, Token::With, Token::End, Token::Fun, Token::Tfun, Token::Contract, Token::Transition, Token::Send, Token::Event, Token::EventType, Token::Field, Token::Accept, Token::Exists, Token::Delete, Token::Throw, Token::Map, Token::ScillaVersion, Token::Type, Token::Of, Token::As, Token::Procedure, Token::Emp, Token::ByStr];
pub fn kind_of(t: &Token<&str>) -> u8 {
    match t {
        Token::Plus => 0,
        Token::Asterisk => 1,
        Token::Semicolon => 2,
        Token::Colon => 3,
        Token::Dot => 4,
        Token::Pipe => 5,
        Token::OpenBracket => 6,
        Token::CloseBracket => 7,
        Token::OpenParen => 8,
        Token::CloseParen => 9,
        Token::OpenBrace => 10,
        Token::CloseBrace => 11,
        Token::Comma => 12,
        Token::DoubleArrow => 13,
        Token::Arrow => 14,
        Token::Equals => 15,
        Token::Ampersand => 16,
        Token::LeftArrow => 17,
        Token::ColonEquals => 18,
        Token::At => 19,
        Token::Minus => 20,
        Token::Underscore => 21,
        Token::Forall => 22,
        Token::Builtin => 23,
        Token::Library => 24,
        Token::Import => 25,
        Token::Let => 26,
        Token::In => 27,
        Token::Match => 28,
        Token::With => 29,
        Token::End => 30,
        Token::Fun => 31,
        Token::Tfun => 32,
        Token::Contract => 33,
        Token::Transition => 34,
        Token::Send => 35,
        Token::Event => 36,
        Token::EventType => 37,
        Token::Field => 38,
        Token::Accept => 39,
        Token::Exists => 40,
        Token::Delete => 41,
        Token::Throw => 42,
        Token::Map => 43,
        Token::ScillaVersion => 44,
        Token::Type => 45,
        Token::Of => 46,
        Token::As => 47,
        Token::Procedure => 48,
        Token::Emp => 49,
        Token::ByStr => 50,
        Token::ByStrWithSize(_) => 51,
        Token::Number(_) => 52,
        Token::HexNumber(_) => 53,
        Token::StringLiteral(_) => 54,
        Token::Identifier(_) => 55,
        Token::SpecialIdentifier(_) => 56,
        Token::CustomIdentifier(_) => 57,
        Token::TemplateIdentifier(_) => 58,
        _ => UNKNOWN,
    }
}
pub fn text_of<'a>(t: &Token<&'a str>) -> &'a str {
    match t {
        Token::ByStrWithSize(s) => s,
        Token::Number(s) => s,
        Token::HexNumber(s) => s,
        Token::StringLiteral(s) => s,
        Token::Identifier(s) => s,
        Token::SpecialIdentifier(s) => s,
        Token::CustomIdentifier(s) => s,
        Token::TemplateIdentifier(s) => s,
        _ => "",
    }
}
pub fn make<'a>(k: u8, s: &'a str) -> Token<&'a str> {
    match k {
        51 => Token::ByStrWithSize(s),
        52 => Token::Number(s),
        53 => Token::HexNumber(s),
        54 => Token::StringLiteral(s),
        55 => Token::Identifier(s),
        56 => Token::SpecialIdentifier(s),
        57 => Token::CustomIdentifier(s),
        58 => Token::TemplateIdentifier(s),
        UNKNOWN => Token::Unknown,
        k => FIXED[k as usize].clone(),
    }
}
// symbols < 128 are terminals, >= 128 nonterminals; 255 ends an alternative
pub static FLAT: [u8; 581] = [44, 52, 180, 181, 166, 255, 25, 130, 182, 255, 131, 210, 255, 51, 255, 37, 255, 57, 255, 131, 211, 255, 53, 4, 131, 255, 50, 255, 55, 255, 56, 255, 131, 4, 55, 255, 133, 183, 255, 8, 9, 255, 136, 212, 255, 132, 184, 255, 43, 141, 142, 255, 8, 135, 9, 255, 138, 255, 22, 58, 4, 136, 255, 58, 255, 8, 135, 9, 255, 132, 255, 58, 255, 138, 255, 43, 141, 142, 255, 131, 29, 213, 255, 140, 187, 255, 38, 133, 3, 135, 255, 132, 255, 8, 214, 255, 138, 255, 132, 255, 43, 141, 142, 255, 8, 143, 9, 255, 138, 255, 132, 144, 188, 255, 142, 255, 8, 143, 9, 255, 132, 255, 43, 141, 142, 255, 24, 131, 189, 255, 26, 55, 190, 15, 150, 255, 45, 131, 215, 255, 5, 131, 216, 255, 3, 135, 255, 10, 184, 11, 255, 26, 55, 190, 15, 150, 27, 150, 255, 31, 8, 55, 148, 9, 13, 150, 255, 133, 217, 255, 155, 255, 23, 55, 192, 134, 255, 10, 154, 194, 11, 255, 28, 133, 29, 195, 30, 255, 132, 192, 183, 255, 32, 58, 13, 150, 255, 19, 133, 137, 184, 255, 5, 152, 13, 150, 255, 21, 255, 55, 255, 132, 196, 255, 21, 255, 55, 255, 132, 255, 8, 152, 9, 255, 133, 3, 218, 255, 131, 52, 255, 53, 255, 54, 255, 49, 141, 142, 255, 55, 219, 255, 157, 255, 41, 55, 159, 198, 255, 39, 255, 35, 133, 255, 36, 133, 255, 42, 199, 255, 28, 133, 29, 160, 200, 30, 255, 162, 183, 255, 22, 133, 162, 255, 55, 17, 16, 221, 255, 8, 133, 183, 9, 255, 6, 133, 7, 255, 5, 152, 13, 201, 255, 156, 203, 255, 131, 255, 55, 255, 8, 204, 9, 255, 165, 206, 255, 55, 148, 255, 33, 131, 163, 207, 208, 209, 255, 29, 150, 13, 255, 38, 165, 15, 150, 255, 34, 162, 163, 170, 255, 48, 162, 163, 170, 255, 201, 30, 255, 129, 180, 255, 136, 14, 135, 255, 12, 140, 255, 2, 154, 255, 2, 156, 255, 12, 165, 255, 133, 255, 155, 255, 34, 162, 163, 170, 255, 48, 162, 163, 170, 255, 255, 129, 180, 255, 255, 145, 255, 255, 130, 182, 255, 255, 133, 183, 255, 255, 137, 184, 255, 255, 139, 255, 12, 140, 255, 255, 186, 187, 255, 255, 144, 188, 255, 255, 146, 189, 255, 255, 148, 255, 255, 147, 191, 255, 255, 149, 255, 2, 154, 255, 255, 193, 194, 255, 255, 151, 195, 255, 255, 153, 196, 255, 255, 158, 255, 255, 159, 198, 255, 255, 133, 255, 255, 160, 200, 255, 255, 161, 255, 2, 156, 255, 255, 202, 203, 255, 255, 164, 255, 12, 165, 255, 255, 205, 206, 255, 255, 167, 255, 255, 168, 208, 255, 255, 169, 209, 255, 255, 47, 131, 255, 255, 4, 131, 255, 255, 14, 135, 255, 30, 255, 33, 185, 30, 255, 24, 30, 255, 56, 30, 255, 132, 9, 255, 138, 9, 255, 255, 15, 147, 191, 255, 255, 46, 137, 184, 255, 133, 183, 255, 255, 155, 255, 133, 255, 17, 220, 255, 18, 133, 255, 15, 150, 255, 159, 198, 18, 133, 255, 133, 255, 16, 131, 197, 255, 55, 159, 198, 255, 40, 55, 159, 198, 255, 55, 4, 222, 255, 56, 4, 56, 255, 40, 55, 4, 55, 159, 198, 255, 133, 47, 138, 255, 133, 255, 55, 159, 198, 255];
pub static ALT: [u16; 196] = [0, 6, 10, 13, 15, 17, 19, 22, 26, 28, 30, 32, 36, 39, 42, 45, 48, 52, 56, 58, 63, 65, 69, 71, 73, 75, 79, 83, 86, 91, 93, 96, 98, 100, 104, 108, 110, 114, 116, 120, 122, 126, 130, 136, 140, 144, 147, 151, 159, 167, 170, 172, 177, 182, 188, 192, 197, 202, 207, 209, 211, 214, 216, 218, 220, 224, 228, 231, 233, 235, 239, 242, 244, 249, 251, 254, 257, 260, 267, 270, 274, 279, 284, 288, 293, 296, 298, 300, 304, 307, 310, 317, 321, 326, 331, 336, 339, 342, 346, 349, 352, 355, 358, 360, 362, 367, 372, 373, 376, 377, 379, 380, 383, 384, 387, 388, 391, 392, 394, 397, 398, 401, 402, 405, 406, 409, 410, 412, 413, 416, 417, 419, 422, 423, 426, 427, 430, 431, 434, 435, 437, 438, 441, 442, 444, 445, 448, 449, 451, 454, 455, 458, 459, 461, 464, 465, 468, 469, 471, 472, 475, 476, 479, 480, 483, 484, 487, 488, 491, 493, 497, 500, 503, 506, 509, 510, 514, 515, 519, 522, 523, 525, 527, 530, 533, 536, 541, 543, 547, 551, 556, 560, 564, 571, 575, 577];
pub static NTALT: [u16; 96] = [0, 1, 2, 3, 6, 9, 12, 14, 15, 21, 26, 27, 28, 29, 32, 36, 38, 41, 42, 44, 45, 46, 47, 57, 58, 61, 65, 66, 70, 80, 81, 82, 83, 84, 85, 87, 88, 89, 90, 91, 92, 93, 95, 96, 97, 98, 99, 100, 101, 102, 104, 105, 106, 108, 110, 112, 114, 116, 118, 119, 121, 123, 125, 127, 129, 131, 132, 134, 136, 138, 140, 142, 144, 146, 148, 149, 151, 153, 154, 156, 158, 160, 162, 164, 166, 168, 172, 174, 176, 178, 180, 182, 186, 190, 194, 196];
pub static YFLAT: [u8; 154] = [44, 52, 33, 51, 8, 9, 25, 51, 51, 51, 50, 55, 55, 50, 50, 50, 51, 29, 30, 38, 55, 3, 50, 38, 55, 3, 50, 50, 50, 50, 50, 24, 51, 45, 51, 5, 51, 3, 50, 10, 11, 55, 5, 21, 13, 55, 21, 21, 55, 3, 53, 53, 39, 55, 17, 16, 56, 4, 56, 8, 55, 9, 6, 55, 7, 5, 21, 13, 39, 51, 8, 9, 55, 3, 50, 55, 3, 50, 33, 51, 8, 9, 29, 55, 13, 38, 55, 3, 50, 15, 55, 34, 51, 8, 9, 30, 30, 25, 51, 50, 14, 50, 12, 38, 55, 3, 50, 2, 55, 3, 53, 2, 39, 12, 55, 3, 50, 55, 34, 51, 8, 9, 30, 48, 51, 8, 9, 30, 12, 38, 55, 3, 50, 2, 55, 3, 53, 2, 39, 12, 55, 3, 50, 30, 50, 9, 53, 18, 55, 55, 56, 4, 56, 55];
pub static YIX: [u16; 96] = [0, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19, 23, 27, 28, 29, 30, 31, 33, 35, 37, 39, 41, 42, 46, 47, 48, 51, 52, 53, 59, 62, 65, 68, 69, 70, 72, 75, 78, 82, 85, 91, 96, 97, 99, 102, 107, 111, 113, 117, 118, 123, 128, 128, 128, 128, 128, 128, 128, 133, 133, 133, 133, 133, 133, 133, 137, 137, 137, 137, 137, 137, 137, 137, 137, 139, 139, 139, 143, 143, 143, 143, 143, 143, 143, 143, 144, 146, 146, 146, 146, 147, 149, 150, 153, 154];
pub static PFLAT: [u8; 2513] = [44, 44, 52, 44, 52, 24, 44, 52, 25, 44, 52, 33, 44, 52, 24, 51, 44, 52, 25, 51, 44, 52, 33, 37, 44, 52, 33, 51, 44, 52, 33, 57, 44, 52, 24, 51, 26, 44, 52, 24, 51, 45, 44, 52, 25, 51, 47, 44, 52, 25, 51, 51, 44, 52, 33, 51, 8, 44, 52, 24, 51, 26, 55, 44, 52, 24, 51, 45, 51, 44, 52, 25, 51, 47, 51, 44, 52, 33, 51, 8, 9, 44, 52, 33, 51, 8, 55, 44, 52, 24, 51, 26, 55, 15, 44, 52, 24, 51, 45, 51, 15, 44, 52, 33, 51, 8, 9, 29, 44, 52, 33, 51, 8, 9, 34, 44, 52, 33, 51, 8, 9, 38, 44, 52, 33, 51, 8, 9, 48, 44, 52, 33, 51, 8, 55, 3, 44, 52, 24, 51, 26, 55, 3, 50, 44, 52, 24, 51, 26, 55, 15, 10, 44, 52, 24, 51, 26, 55, 15, 19, 44, 52, 24, 51, 26, 55, 15, 23, 44, 52, 24, 51, 26, 55, 15, 26, 44, 52, 24, 51, 26, 55, 15, 28, 44, 52, 24, 51, 26, 55, 15, 31, 44, 52, 24, 51, 26, 55, 15, 32, 44, 52, 24, 51, 26, 55, 15, 49, 44, 52, 24, 51, 26, 55, 15, 50, 44, 52, 24, 51, 26, 55, 15, 51, 44, 52, 24, 51, 26, 55, 15, 53, 44, 52, 24, 51, 26, 55, 15, 54, 44, 52, 24, 51, 26, 55, 15, 55, 44, 52, 24, 51, 26, 55, 15, 56, 44, 52, 24, 51, 45, 51, 15, 5, 44, 52, 33, 51, 8, 9, 29, 55, 44, 52, 33, 51, 8, 9, 34, 51, 44, 52, 33, 51, 8, 9, 34, 55, 44, 52, 33, 51, 8, 9, 48, 51, 44, 52, 33, 51, 8, 55, 3, 8, 44, 52, 33, 51, 8, 55, 3, 22, 44, 52, 33, 51, 8, 55, 3, 43, 44, 52, 33, 51, 8, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 51, 44, 52, 33, 51, 8, 55, 3, 58, 44, 52, 24, 51, 26, 55, 15, 10, 55, 44, 52, 24, 51, 26, 55, 15, 19, 55, 44, 52, 24, 51, 26, 55, 15, 23, 55, 44, 52, 24, 51, 26, 55, 15, 26, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 44, 52, 24, 51, 26, 55, 15, 31, 8, 44, 52, 24, 51, 26, 55, 15, 32, 58, 44, 52, 24, 51, 26, 55, 15, 49, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 44, 52, 24, 51, 26, 55, 15, 50, 10, 44, 52, 24, 51, 26, 55, 15, 50, 55, 44, 52, 24, 51, 26, 55, 15, 51, 4, 44, 52, 24, 51, 26, 55, 15, 51, 52, 44, 52, 24, 51, 26, 55, 15, 53, 4, 44, 52, 24, 51, 26, 55, 15, 55, 55, 44, 52, 24, 51, 45, 51, 15, 5, 51, 44, 52, 33, 51, 8, 9, 29, 55, 13, 44, 52, 33, 51, 8, 55, 3, 8, 50, 44, 52, 33, 51, 8, 55, 3, 22, 58, 44, 52, 33, 51, 8, 55, 3, 43, 50, 44, 52, 33, 51, 8, 55, 3, 50, 8, 44, 52, 33, 51, 8, 55, 3, 50, 12, 44, 52, 33, 51, 8, 55, 3, 50, 14, 44, 52, 33, 51, 8, 55, 3, 50, 43, 44, 52, 33, 51, 8, 55, 3, 50, 50, 44, 52, 33, 51, 8, 55, 3, 50, 58, 44, 52, 33, 51, 8, 55, 3, 51, 29, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 44, 52, 24, 51, 26, 55, 15, 19, 55, 50, 44, 52, 24, 51, 26, 55, 15, 23, 55, 8, 44, 52, 24, 51, 26, 55, 15, 23, 55, 55, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 44, 52, 24, 51, 26, 55, 15, 32, 58, 13, 44, 52, 24, 51, 26, 55, 15, 49, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 44, 52, 24, 51, 26, 55, 15, 49, 50, 50, 44, 52, 24, 51, 26, 55, 15, 50, 10, 11, 44, 52, 24, 51, 26, 55, 15, 51, 4, 51, 44, 52, 24, 51, 26, 55, 15, 51, 4, 55, 44, 52, 24, 51, 26, 55, 15, 53, 4, 51, 44, 52, 24, 51, 45, 51, 15, 5, 51, 46, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 44, 52, 33, 51, 8, 9, 38, 55, 3, 50, 44, 52, 33, 51, 8, 9, 48, 51, 8, 9, 44, 52, 33, 51, 8, 55, 3, 8, 50, 9, 44, 52, 33, 51, 8, 55, 3, 22, 58, 4, 44, 52, 33, 51, 8, 55, 3, 43, 50, 50, 44, 52, 33, 51, 8, 55, 3, 50, 8, 50, 44, 52, 33, 51, 8, 55, 3, 50, 14, 50, 44, 52, 33, 51, 8, 55, 3, 50, 43, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 24, 44, 52, 33, 51, 8, 55, 3, 51, 29, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 44, 52, 33, 51, 8, 55, 3, 51, 29, 56, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 55, 44, 52, 24, 51, 26, 55, 15, 23, 55, 8, 9, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 30, 44, 52, 24, 51, 26, 55, 15, 32, 58, 13, 55, 44, 52, 24, 51, 26, 55, 15, 49, 8, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 50, 44, 52, 24, 51, 26, 55, 15, 49, 51, 29, 30, 44, 52, 24, 51, 45, 51, 15, 5, 51, 5, 51, 44, 52, 24, 51, 45, 51, 15, 5, 51, 46, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 22, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 35, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 36, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 41, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 42, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 51, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 44, 52, 33, 51, 8, 9, 38, 55, 3, 50, 15, 44, 52, 33, 51, 8, 9, 48, 51, 8, 9, 30, 44, 52, 33, 51, 8, 55, 3, 22, 58, 4, 50, 44, 52, 33, 51, 8, 55, 3, 50, 8, 50, 9, 44, 52, 33, 51, 8, 55, 3, 50, 43, 50, 50, 44, 52, 33, 51, 8, 55, 3, 50, 51, 29, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 24, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 44, 52, 33, 51, 8, 55, 3, 51, 29, 56, 30, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 2, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 11, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 55, 27, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 55, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 44, 52, 24, 51, 26, 55, 15, 49, 8, 51, 29, 30, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 50, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 51, 29, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 22, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 35, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 36, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 41, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 42, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 15, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 18, 44, 52, 33, 51, 8, 9, 38, 55, 3, 50, 15, 55, 44, 52, 33, 51, 8, 55, 3, 50, 12, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 55, 27, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 21, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 50, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 55, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 8, 51, 29, 30, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 22, 55, 51, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 39, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 15, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 18, 55, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 50, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 55, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 9, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 41, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 18, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 4, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 18, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 4, 56, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 9, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 51, 29, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 6, 55, 7, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7];
pub static PIX: [u16; 236] = [0, 0, 1, 3, 6, 9, 12, 16, 20, 24, 28, 32, 37, 42, 47, 52, 57, 63, 69, 75, 81, 87, 94, 101, 108, 115, 122, 129, 136, 144, 152, 160, 168, 176, 184, 192, 200, 208, 216, 224, 232, 240, 248, 256, 264, 272, 280, 288, 296, 304, 312, 320, 328, 336, 344, 353, 362, 371, 380, 389, 398, 407, 416, 425, 434, 443, 452, 461, 470, 479, 488, 497, 506, 515, 524, 533, 542, 551, 560, 569, 578, 587, 597, 607, 617, 627, 637, 647, 657, 667, 677, 687, 697, 707, 717, 727, 737, 747, 757, 767, 777, 787, 797, 807, 817, 827, 837, 847, 857, 867, 877, 887, 898, 909, 920, 931, 942, 953, 964, 975, 986, 997, 1008, 1019, 1030, 1041, 1052, 1063, 1074, 1085, 1096, 1107, 1118, 1129, 1140, 1151, 1162, 1173, 1184, 1195, 1206, 1217, 1228, 1239, 1250, 1262, 1274, 1286, 1298, 1310, 1322, 1334, 1346, 1358, 1370, 1382, 1394, 1406, 1418, 1430, 1442, 1454, 1466, 1478, 1490, 1502, 1514, 1526, 1538, 1550, 1562, 1574, 1586, 1599, 1612, 1625, 1638, 1651, 1664, 1677, 1690, 1703, 1716, 1729, 1742, 1755, 1768, 1781, 1794, 1807, 1820, 1833, 1846, 1859, 1873, 1887, 1901, 1915, 1929, 1943, 1957, 1971, 1985, 1999, 2013, 2027, 2041, 2056, 2071, 2086, 2101, 2116, 2131, 2146, 2161, 2176, 2191, 2206, 2221, 2237, 2253, 2269, 2285, 2301, 2317, 2333, 2350, 2367, 2384, 2401, 2418, 2436, 2455, 2474, 2493, 2513];
pub static RFLAT: [u8; 1000] = [44, 52, 33, 51, 8, 55, 3, 8, 44, 52, 33, 51, 8, 55, 3, 50, 14, 44, 52, 33, 51, 8, 55, 3, 50, 8, 44, 52, 33, 51, 8, 55, 3, 43, 51, 29, 33, 38, 55, 3, 44, 52, 33, 51, 8, 55, 3, 43, 50, 51, 29, 33, 38, 55, 3, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 44, 52, 33, 51, 8, 55, 3, 22, 58, 4, 44, 52, 33, 51, 8, 55, 3, 50, 8, 50, 44, 52, 33, 51, 8, 55, 3, 50, 51, 29, 33, 38, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 50, 43, 51, 29, 33, 38, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 50, 43, 50, 51, 29, 33, 38, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 51, 29, 33, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 51, 29, 33, 44, 52, 24, 51, 26, 55, 15, 49, 8, 51, 29, 33, 38, 55, 3, 43, 44, 52, 24, 51, 26, 55, 15, 49, 51, 29, 33, 38, 55, 3, 43, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 51, 29, 33, 38, 55, 3, 43, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 51, 29, 33, 38, 55, 3, 43, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 50, 8, 50, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 55, 27, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 44, 52, 24, 51, 26, 55, 15, 32, 58, 13, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 28, 55, 29, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 28, 55, 29, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 28, 55, 29, 5, 21, 13, 44, 52, 25, 51, 44, 52, 25, 51, 51, 44, 52, 24, 51, 26, 55, 15, 50, 55, 44, 52, 24, 51, 26, 55, 15, 50, 56, 44, 52, 24, 51, 26, 55, 15, 50, 51, 4, 55, 44, 52, 33, 51, 8, 55, 3, 50, 8, 50, 9, 44, 52, 33, 51, 8, 55, 3, 50, 50, 44, 52, 33, 51, 8, 55, 3, 50, 58, 44, 52, 33, 51, 8, 55, 3, 50, 51, 29, 30, 44, 52, 33, 51, 8, 55, 3, 50, 43, 50, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 8, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 43, 50, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 8, 50, 50, 44, 52, 24, 51, 26, 55, 15, 55, 44, 52, 24, 51, 45, 51, 44, 52, 24, 51, 45, 51, 15, 5, 51, 5, 51, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 21, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 50, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 9, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 28, 55, 29, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 28, 55, 29, 5, 21, 13, 39, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 39, 44, 52, 33, 51, 8, 55, 3, 50, 12, 55, 3, 50, 44, 52, 33, 51, 8, 9, 38, 55, 3, 50, 15, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 30, 44, 52, 33, 51, 8, 9, 48, 51, 8, 9, 30, 44, 52, 33, 51, 8, 55, 3, 50, 14, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 51, 29, 44, 52, 24, 51, 26, 55, 15, 49, 8, 51, 29, 33, 38, 55, 3, 43, 8];
pub static RIX: [u16; 149] = [0, 7, 8, 15, 17, 24, 26, 33, 40, 47, 55, 62, 68, 75, 78, 86, 88, 96, 103, 111, 119, 127, 136, 146, 152, 162, 173, 181, 189, 197, 204, 213, 222, 231, 233, 242, 243, 252, 260, 270, 272, 282, 285, 295, 296, 307, 309, 320, 331, 342, 346, 353, 356, 363, 368, 375, 382, 389, 395, 402, 405, 415, 421, 432, 434, 446, 448, 458, 464, 474, 483, 496, 502, 512, 520, 522, 524, 528, 529, 537, 538, 546, 547, 555, 558, 566, 569, 577, 578, 586, 587, 595, 598, 606, 609, 623, 634, 648, 653, 665, 668, 680, 681, 693, 696, 708, 711, 715, 719, 723, 725, 734, 736, 747, 751, 761, 765, 777, 778, 790, 791, 803, 804, 816, 819, 833, 836, 852, 855, 871, 880, 891, 899, 910, 912, 920, 924, 930, 936, 942, 947, 953, 958, 966, 968, 977, 983, 992, 1000];
pub static ENTRY: [(&str, u8); 52] = [("ByteString", 51), ("TypeNameIdentifier", 131), ("ImportedName", 130), ("ImportDeclarations", 171), ("MetaIdentifier", 132), ("VariableIdentifier", 133), ("BuiltinArguments", 134), ("RemainingTypes", 136), ("FunctionSignature", 172), ("ScillaType", 135), ("TypeArgument", 137), ("AddressType", 138), ("AddressTypeFieldList", 139), ("NextAddressTypeField", 173), ("AddressTypeField", 140), ("TypeMapKey", 141), ("TypeMapValue", 142), ("TypeMapValueArguments", 144), ("Program", 128), ("LibraryDefinition", 145), ("LibrarySingleDefinition", 146), ("TypedIdentifier", 165), ("TypeAnnotation", 148), ("TypeAlternativeClause", 147), ("TypeMapValueAllowingTypeArguments", 143), ("ContractTypeArguments", 149), ("FullExpression", 150), ("PatternMatchExpressionClause", 151), ("Pattern", 152), ("ArgumentPattern", 153), ("NextMessageEntry", 174), ("MessageEntry", 154), ("AtomicExpression", 177), ("ValueLiteral", 155), ("Statement", 156), ("NextStatement", 175), ("StatementBlock", 161), ("BlockchainFetchArguments", 158), ("ComponentId", 162), ("PatternMatchClause", 160), ("RemoteFetchStatement", 157), ("MapAccess", 159), ("ParameterPair", 165), ("NextParameterPair", 176), ("ComponentParameters", 163), ("ComponentDefinition", 169), ("TransitionDefinition", 178), ("ProcedureDefinition", 179), ("ComponentBody", 170), ("ContractDefinition", 166), ("ContractField", 168), ("WithConstraint", 167)];
pub static EPIX: [u16; 53] = [0, 2, 6, 12, 21, 31, 39, 50, 121, 194, 265, 336, 408, 479, 551, 622, 693, 764, 836, 1071, 1215, 1357, 1430, 1502, 1576, 1647, 1719, 1850, 1984, 2002, 2020, 2101, 2181, 2258, 2335, 2528, 2722, 2915, 2926, 2931, 3126, 3216, 3226, 3299, 3373, 3450, 3657, 3860, 4063, 4256, 4470, 4607, 4740];
pub static ESTART: [u16; 4741] = [0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 9, 12, 12, 13, 15, 17, 19, 22, 25, 29, 33, 33, 34, 35, 36, 37, 38, 40, 42, 45, 48, 48, 49, 50, 51, 52, 53, 55, 58, 58, 59, 60, 61, 62, 63, 64, 66, 68, 70, 73, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102, 104, 107, 110, 113, 116, 119, 122, 125, 128, 131, 134, 137, 140, 143, 146, 149, 153, 157, 161, 165, 169, 173, 177, 181, 185, 189, 193, 197, 201, 206, 211, 216, 221, 226, 231, 236, 241, 246, 251, 257, 263, 269, 275, 281, 287, 294, 301, 308, 315, 323, 335, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 346, 348, 350, 352, 354, 356, 358, 360, 362, 364, 366, 368, 371, 374, 377, 380, 383, 386, 389, 392, 395, 398, 401, 404, 407, 410, 413, 416, 420, 424, 428, 432, 436, 440, 444, 448, 452, 456, 460, 464, 468, 473, 478, 483, 488, 493, 498, 503, 508, 513, 518, 524, 530, 536, 542, 548, 554, 561, 568, 575, 582, 590, 602, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 613, 615, 617, 619, 621, 623, 625, 627, 629, 631, 633, 635, 638, 641, 644, 647, 650, 653, 656, 659, 662, 665, 668, 671, 674, 677, 680, 684, 688, 692, 696, 700, 704, 708, 712, 716, 720, 724, 728, 733, 738, 743, 748, 753, 758, 763, 768, 773, 778, 784, 790, 796, 802, 808, 814, 821, 828, 835, 842, 850, 862, 862, 863, 864, 865, 866, 867, 868, 869, 870, 872, 874, 876, 878, 880, 882, 884, 886, 888, 890, 893, 896, 899, 902, 905, 908, 911, 914, 917, 920, 923, 926, 929, 932, 935, 938, 942, 946, 950, 954, 958, 962, 966, 970, 974, 978, 982, 986, 990, 995, 1000, 1005, 1010, 1015, 1020, 1025, 1030, 1035, 1040, 1045, 1051, 1057, 1063, 1069, 1075, 1081, 1088, 1095, 1102, 1109, 1117, 1129, 1129, 1130, 1131, 1132, 1134, 1137, 1140, 1143, 1146, 1150, 1154, 1158, 1162, 1167, 1172, 1177, 1183, 1189, 1196, 1203, 1210, 1217, 1224, 1231, 1238, 1245, 1253, 1261, 1269, 1277, 1285, 1293, 1301, 1309, 1317, 1325, 1333, 1341, 1350, 1359, 1368, 1377, 1386, 1395, 1404, 1413, 1422, 1431, 1440, 1449, 1459, 1469, 1479, 1489, 1499, 1509, 1519, 1529, 1540, 1551, 1562, 1573, 1584, 1595, 1606, 1618, 1630, 1642, 1654, 1666, 1679, 1692, 1692, 1693, 1695, 1697, 1699, 1701, 1703, 1706, 1709, 1713, 1717, 1721, 1725, 1729, 1733, 1737, 1741, 1746, 1751, 1756, 1761, 1766, 1771, 1776, 1781, 1786, 1791, 1796, 1801, 1806, 1812, 1818, 1824, 1830, 1836, 1842, 1848, 1854, 1860, 1866, 1872, 1878, 1884, 1890, 1896, 1903, 1910, 1917, 1924, 1931, 1938, 1945, 1952, 1959, 1966, 1973, 1981, 1989, 1997, 2005, 2013, 2021, 2029, 2038, 2047, 2056, 2065, 2074, 2084, 2094, 2104, 2104, 2105, 2107, 2110, 2113, 2116, 2119, 2122, 2126, 2130, 2135, 2140, 2145, 2150, 2155, 2160, 2165, 2170, 2176, 2182, 2188, 2194, 2200, 2206, 2212, 2218, 2224, 2230, 2236, 2242, 2249, 2256, 2263, 2270, 2277, 2284, 2291, 2298, 2305, 2312, 2319, 2326, 2333, 2340, 2347, 2355, 2363, 2371, 2379, 2387, 2395, 2403, 2411, 2419, 2427, 2435, 2444, 2453, 2462, 2471, 2480, 2489, 2498, 2508, 2518, 2528, 2538, 2549, 2560, 2571, 2583, 2599, 2599, 2600, 2602, 2604, 2606, 2608, 2610, 2613, 2616, 2620, 2624, 2628, 2632, 2636, 2640, 2644, 2648, 2653, 2658, 2663, 2668, 2673, 2678, 2683, 2688, 2693, 2698, 2703, 2708, 2714, 2720, 2726, 2732, 2738, 2744, 2750, 2756, 2762, 2768, 2774, 2780, 2786, 2792, 2798, 2805, 2812, 2819, 2826, 2833, 2840, 2847, 2854, 2861, 2868, 2875, 2883, 2891, 2899, 2907, 2915, 2923, 2931, 2940, 2949, 2958, 2967, 2977, 2987, 2997, 3008, 3023, 3023, 3024, 3025, 3026, 3027, 3028, 3029, 3031, 3033, 3035, 3037, 3040, 3043, 3046, 3049, 3052, 3055, 3058, 3062, 3066, 3070, 3074, 3078, 3083, 3088, 3093, 3098, 3104, 3110, 3117, 3124, 3131, 3138, 3145, 3152, 3160, 3168, 3176, 3184, 3192, 3200, 3208, 3216, 3224, 3233, 3242, 3251, 3260, 3269, 3278, 3287, 3296, 3305, 3315, 3325, 3335, 3345, 3355, 3365, 3376, 3387, 3398, 3409, 3420, 3431, 3443, 3455, 3467, 3479, 3492, 3505, 3505, 3506, 3507, 3508, 3509, 3510, 3511, 3512, 3514, 3516, 3518, 3520, 3522, 3524, 3527, 3530, 3533, 3536, 3539, 3542, 3545, 3548, 3551, 3554, 3557, 3560, 3564, 3568, 3572, 3576, 3580, 3584, 3588, 3592, 3596, 3601, 3606, 3611, 3616, 3621, 3626, 3632, 3638, 3644, 3651, 3658, 3665, 3672, 3679, 3686, 3694, 3702, 3710, 3718, 3726, 3734, 3742, 3750, 3758, 3767, 3776, 3785, 3794, 3803, 3812, 3821, 3831, 3841, 3851, 3861, 3873, 3873, 3874, 3875, 3876, 3877, 3878, 3879, 3880, 3882, 3884, 3886, 3888, 3890, 3892, 3894, 3896, 3899, 3902, 3905, 3908, 3911, 3914, 3917, 3920, 3923, 3927, 3931, 3935, 3939, 3943, 3947, 3951, 3955, 3959, 3964, 3969, 3974, 3979, 3984, 3990, 3996, 4002, 4008, 4015, 4022, 4030, 4038, 4046, 4054, 4062, 4070, 4079, 4088, 4097, 4106, 4115, 4124, 4133, 4142, 4151, 4161, 4171, 4181, 4191, 4201, 4211, 4221, 4232, 4243, 4254, 4265, 4278, 4278, 4279, 4281, 4284, 4287, 4290, 4294, 4298, 4302, 4306, 4310, 4315, 4320, 4325, 4330, 4335, 4341, 4347, 4353, 4359, 4365, 4372, 4379, 4386, 4393, 4400, 4407, 4414, 4422, 4430, 4438, 4446, 4454, 4462, 4470, 4478, 4486, 4494, 4502, 4510, 4518, 4526, 4534, 4542, 4550, 4558, 4566, 4574, 4582, 4590, 4598, 4606, 4614, 4622, 4631, 4640, 4649, 4658, 4667, 4676, 4685, 4694, 4703, 4712, 4721, 4730, 4739, 4748, 4757, 4766, 4775, 4784, 4793, 4802, 4811, 4820, 4829, 4838, 4847, 4856, 4865, 4875, 4885, 4895, 4905, 4915, 4925, 4935, 4945, 4955, 4965, 4975, 4985, 4995, 5005, 5015, 5025, 5035, 5045, 5055, 5065, 5075, 5085, 5095, 5105, 5115, 5125, 5135, 5145, 5155, 5165, 5176, 5187, 5198, 5209, 5220, 5231, 5242, 5253, 5264, 5275, 5286, 5297, 5308, 5319, 5330, 5341, 5352, 5363, 5374, 5385, 5396, 5407, 5418, 5429, 5440, 5451, 5462, 5473, 5484, 5495, 5506, 5517, 5528, 5540, 5552, 5564, 5576, 5588, 5600, 5612, 5624, 5636, 5648, 5660, 5672, 5684, 5696, 5708, 5720, 5732, 5744, 5756, 5768, 5780, 5792, 5804, 5816, 5828, 5840, 5852, 5864, 5877, 5890, 5903, 5916, 5929, 5942, 5955, 5968, 5981, 5994, 6007, 6020, 6033, 6046, 6059, 6072, 6085, 6098, 6111, 6124, 6137, 6151, 6165, 6179, 6193, 6207, 6221, 6235, 6249, 6263, 6277, 6291, 6305, 6319, 6334, 6349, 6364, 6379, 6394, 6409, 6424, 6439, 6454, 6469, 6484, 6499, 6515, 6531, 6547, 6563, 6579, 6595, 6611, 6628, 6645, 6662, 6679, 6696, 6714, 6733, 6752, 6771, 6791, 6791, 6792, 6794, 6796, 6798, 6801, 6804, 6808, 6812, 6817, 6822, 6827, 6833, 6839, 6845, 6851, 6857, 6863, 6869, 6875, 6881, 6887, 6893, 6899, 6905, 6911, 6917, 6923, 6929, 6935, 6941, 6947, 6953, 6960, 6967, 6974, 6981, 6988, 6995, 7002, 7009, 7016, 7023, 7030, 7037, 7044, 7051, 7058, 7065, 7072, 7079, 7086, 7093, 7100, 7107, 7114, 7121, 7128, 7136, 7144, 7152, 7160, 7168, 7176, 7184, 7192, 7200, 7208, 7216, 7224, 7232, 7240, 7248, 7256, 7264, 7272, 7280, 7288, 7296, 7304, 7312, 7320, 7328, 7336, 7344, 7353, 7362, 7371, 7380, 7389, 7398, 7407, 7416, 7425, 7434, 7443, 7452, 7461, 7470, 7479, 7488, 7497, 7506, 7515, 7524, 7533, 7543, 7553, 7563, 7573, 7583, 7593, 7603, 7613, 7623, 7633, 7643, 7653, 7663, 7673, 7683, 7694, 7705, 7716, 7727, 7738, 7749, 7760, 7771, 7782, 7793, 7804, 7815, 7827, 7839, 7851, 7863, 7875, 7887, 7900, 7913, 7926, 7939, 7956, 7956, 7957, 7958, 7960, 7962, 7964, 7966, 7969, 7972, 7975, 7979, 7983, 7987, 7991, 7995, 7999, 8003, 8007, 8011, 8015, 8019, 8023, 8027, 8031, 8035, 8039, 8043, 8047, 8051, 8055, 8059, 8064, 8069, 8074, 8079, 8084, 8089, 8094, 8099, 8104, 8109, 8114, 8119, 8124, 8129, 8134, 8139, 8144, 8149, 8154, 8159, 8164, 8169, 8174, 8179, 8184, 8190, 8196, 8202, 8208, 8214, 8220, 8226, 8232, 8238, 8244, 8250, 8256, 8262, 8268, 8274, 8280, 8286, 8292, 8298, 8304, 8310, 8316, 8322, 8328, 8334, 8340, 8346, 8353, 8360, 8367, 8374, 8381, 8388, 8395, 8402, 8409, 8416, 8423, 8430, 8437, 8444, 8451, 8458, 8465, 8472, 8479, 8486, 8493, 8501, 8509, 8517, 8525, 8533, 8541, 8549, 8557, 8565, 8573, 8581, 8589, 8597, 8605, 8613, 8622, 8631, 8640, 8649, 8658, 8667, 8676, 8685, 8694, 8703, 8712, 8721, 8731, 8741, 8751, 8761, 8771, 8781, 8792, 8803, 8814, 8825, 8840, 8840, 8841, 8843, 8846, 8849, 8852, 8855, 8858, 8861, 8864, 8867, 8870, 8874, 8878, 8882, 8886, 8890, 8894, 8898, 8902, 8906, 8910, 8914, 8918, 8923, 8928, 8933, 8938, 8943, 8948, 8953, 8958, 8963, 8968, 8973, 8978, 8983, 8988, 8993, 8999, 9005, 9011, 9017, 9023, 9029, 9035, 9041, 9047, 9053, 9059, 9065, 9072, 9079, 9086, 9093, 9100, 9107, 9114, 9121, 9128, 9135, 9143, 9151, 9159, 9167, 9175, 9183, 9192, 9201, 9210, 9219, 9229, 9243, 9243, 9244, 9246, 9248, 9250, 9252, 9254, 9256, 9258, 9260, 9262, 9265, 9268, 9271, 9274, 9277, 9280, 9283, 9286, 9289, 9292, 9295, 9298, 9302, 9306, 9310, 9314, 9318, 9322, 9326, 9330, 9334, 9338, 9342, 9346, 9350, 9354, 9358, 9363, 9368, 9373, 9378, 9383, 9388, 9393, 9398, 9403, 9408, 9413, 9418, 9424, 9430, 9436, 9442, 9448, 9454, 9460, 9466, 9472, 9478, 9485, 9492, 9499, 9506, 9513, 9520, 9528, 9536, 9544, 9552, 9561, 9574, 9574, 9575, 9577, 9579, 9581, 9584, 9588, 9592, 9596, 9600, 9604, 9608, 9613, 9618, 9623, 9628, 9633, 9638, 9643, 9648, 9653, 9658, 9663, 9669, 9675, 9681, 9687, 9693, 9699, 9705, 9711, 9717, 9723, 9729, 9735, 9741, 9747, 9753, 9760, 9767, 9774, 9781, 9788, 9795, 9802, 9809, 9816, 9823, 9830, 9837, 9844, 9852, 9860, 9868, 9876, 9884, 9892, 9900, 9908, 9916, 9924, 9932, 9941, 9950, 9959, 9968, 9977, 9986, 9996, 10006, 10016, 10026, 10037, 10052, 10052, 10053, 10054, 10055, 10056, 10057, 10058, 10059, 10061, 10063, 10065, 10067, 10069, 10071, 10073, 10075, 10077, 10080, 10083, 10086, 10089, 10092, 10095, 10098, 10101, 10104, 10107, 10110, 10113, 10117, 10121, 10125, 10129, 10133, 10137, 10141, 10145, 10150, 10155, 10160, 10165, 10171, 10177, 10183, 10190, 10197, 10204, 10211, 10218, 10225, 10233, 10241, 10249, 10257, 10265, 10273, 10281, 10289, 10297, 10306, 10315, 10324, 10333, 10342, 10351, 10360, 10370, 10380, 10390, 10400, 10412, 10412, 10413, 10415, 10417, 10419, 10421, 10423, 10425, 10427, 10429, 10431, 10434, 10437, 10440, 10443, 10446, 10449, 10452, 10455, 10458, 10461, 10465, 10469, 10473, 10477, 10481, 10485, 10489, 10493, 10497, 10501, 10505, 10509, 10513, 10517, 10521, 10526, 10531, 10536, 10541, 10546, 10551, 10556, 10561, 10566, 10571, 10576, 10581, 10586, 10592, 10598, 10604, 10610, 10616, 10622, 10628, 10634, 10640, 10646, 10652, 10659, 10666, 10673, 10680, 10687, 10694, 10702, 10710, 10718, 10726, 10735, 10748, 10748, 10749, 10750, 10751, 10752, 10753, 10754, 10755, 10756, 10757, 10758, 10759, 10760, 10761, 10762, 10763, 10764, 10766, 10768, 10770, 10772, 10774, 10776, 10778, 10780, 10782, 10784, 10786, 10788, 10790, 10792, 10794, 10796, 10799, 10802, 10805, 10808, 10811, 10814, 10817, 10820, 10823, 10826, 10829, 10832, 10835, 10838, 10841, 10844, 10847, 10850, 10853, 10856, 10859, 10862, 10866, 10870, 10874, 10878, 10882, 10886, 10890, 10894, 10898, 10902, 10906, 10910, 10914, 10918, 10922, 10926, 10930, 10934, 10938, 10942, 10946, 10951, 10956, 10961, 10966, 10971, 10976, 10981, 10986, 10991, 10996, 11001, 11006, 11011, 11016, 11021, 11026, 11031, 11036, 11041, 11046, 11051, 11056, 11061, 11066, 11071, 11077, 11083, 11089, 11095, 11101, 11107, 11113, 11119, 11125, 11131, 11137, 11143, 11149, 11155, 11161, 11167, 11173, 11180, 11187, 11194, 11201, 11208, 11215, 11222, 11230, 11238, 11246, 11254, 11263, 11276, 11276, 11277, 11279, 11281, 11283, 11285, 11287, 11289, 11291, 11294, 11297, 11300, 11303, 11306, 11309, 11312, 11316, 11320, 11324, 11328, 11332, 11336, 11340, 11344, 11348, 11352, 11356, 11360, 11364, 11368, 11372, 11376, 11380, 11385, 11390, 11395, 11400, 11405, 11410, 11415, 11420, 11425, 11430, 11435, 11440, 11445, 11450, 11455, 11460, 11466, 11472, 11478, 11484, 11490, 11496, 11502, 11508, 11514, 11520, 11526, 11532, 11538, 11544, 11550, 11556, 11562, 11568, 11574, 11580, 11587, 11594, 11601, 11608, 11615, 11622, 11629, 11636, 11643, 11650, 11657, 11664, 11671, 11678, 11685, 11692, 11699, 11706, 11713, 11720, 11728, 11736, 11744, 11752, 11760, 11768, 11776, 11784, 11792, 11800, 11808, 11816, 11824, 11832, 11840, 11848, 11856, 11864, 11872, 11880, 11888, 11896, 11905, 11914, 11923, 11932, 11941, 11950, 11959, 11968, 11977, 11986, 11995, 12004, 12014, 12024, 12034, 12044, 12054, 12064, 12075, 12086, 12097, 12109, 12125, 12125, 12126, 12127, 12128, 12129, 12130, 12131, 12132, 12134, 12136, 12138, 12140, 12142, 12144, 12147, 12150, 12153, 12157, 12157, 12158, 12159, 12160, 12161, 12162, 12163, 12164, 12165, 12167, 12169, 12171, 12173, 12175, 12178, 12181, 12184, 12187, 12187, 12188, 12190, 12192, 12194, 12196, 12198, 12201, 12204, 12208, 12212, 12216, 12220, 12224, 12228, 12233, 12238, 12243, 12248, 12253, 12259, 12265, 12271, 12277, 12283, 12289, 12295, 12302, 12309, 12316, 12323, 12330, 12337, 12344, 12351, 12358, 12366, 12374, 12382, 12390, 12398, 12406, 12414, 12422, 12430, 12438, 12446, 12455, 12464, 12473, 12482, 12491, 12501, 12511, 12521, 12532, 12543, 12554, 12565, 12576, 12588, 12600, 12612, 12624, 12636, 12648, 12660, 12672, 12684, 12697, 12710, 12723, 12736, 12749, 12762, 12775, 12789, 12803, 12817, 12831, 12847, 12847, 12848, 12849, 12850, 12851, 12852, 12854, 12856, 12859, 12862, 12865, 12868, 12871, 12874, 12878, 12882, 12886, 12890, 12894, 12899, 12904, 12909, 12914, 12919, 12924, 12929, 12935, 12941, 12947, 12953, 12959, 12965, 12971, 12977, 12983, 12990, 12997, 13004, 13011, 13018, 13025, 13032, 13039, 13046, 13053, 13060, 13068, 13076, 13084, 13092, 13100, 13109, 13118, 13127, 13137, 13147, 13157, 13167, 13177, 13188, 13199, 13210, 13221, 13232, 13243, 13254, 13265, 13276, 13288, 13300, 13312, 13324, 13336, 13348, 13360, 13373, 13386, 13399, 13412, 13427, 13427, 13428, 13429, 13430, 13431, 13432, 13433, 13434, 13435, 13437, 13439, 13441, 13443, 13445, 13447, 13450, 13453, 13456, 13459, 13462, 13465, 13468, 13471, 13475, 13479, 13483, 13487, 13491, 13495, 13499, 13503, 13507, 13512, 13517, 13522, 13527, 13532, 13537, 13542, 13547, 13552, 13557, 13562, 13568, 13574, 13580, 13586, 13592, 13599, 13606, 13613, 13621, 13629, 13637, 13645, 13653, 13662, 13671, 13680, 13689, 13698, 13707, 13716, 13725, 13734, 13744, 13754, 13764, 13774, 13784, 13794, 13804, 13815, 13826, 13837, 13848, 13861, 13861, 13862, 13863, 13864, 13865, 13866, 13867, 13869, 13871, 13873, 13875, 13877, 13880, 13883, 13886, 13889, 13892, 13895, 13898, 13902, 13906, 13910, 13914, 13918, 13922, 13926, 13930, 13934, 13939, 13944, 13949, 13954, 13959, 13964, 13969, 13974, 13979, 13984, 13989, 13995, 14001, 14007, 14013, 14019, 14025, 14031, 14038, 14045, 14052, 14059, 14067, 14075, 14083, 14091, 14099, 14107, 14116, 14125, 14134, 14143, 14152, 14161, 14170, 14179, 14188, 14198, 14208, 14218, 14228, 14238, 14248, 14258, 14269, 14280, 14291, 14302, 14315, 14315, 14316, 14317, 14318, 14319, 14320, 14321, 14322, 14323, 14324, 14325, 14326, 14328, 14330, 14332, 14334, 14336, 14338, 14340, 14342, 14344, 14346, 14348, 14350, 14352, 14355, 14358, 14361, 14364, 14367, 14370, 14373, 14376, 14379, 14382, 14385, 14388, 14391, 14394, 14397, 14400, 14403, 14406, 14409, 14412, 14415, 14419, 14423, 14427, 14431, 14435, 14439, 14443, 14447, 14451, 14455, 14459, 14463, 14467, 14471, 14475, 14479, 14483, 14487, 14491, 14495, 14499, 14503, 14507, 14512, 14517, 14522, 14527, 14532, 14537, 14542, 14547, 14552, 14557, 14562, 14567, 14572, 14577, 14582, 14587, 14592, 14597, 14602, 14607, 14612, 14617, 14622, 14627, 14632, 14637, 14642, 14647, 14652, 14657, 14662, 14668, 14674, 14680, 14686, 14692, 14698, 14704, 14710, 14716, 14722, 14728, 14734, 14740, 14746, 14752, 14758, 14764, 14770, 14776, 14782, 14788, 14794, 14800, 14806, 14812, 14818, 14824, 14830, 14836, 14842, 14848, 14854, 14861, 14868, 14875, 14882, 14889, 14896, 14903, 14910, 14917, 14924, 14931, 14938, 14945, 14952, 14959, 14966, 14973, 14980, 14987, 14994, 15001, 15008, 15015, 15022, 15029, 15036, 15043, 15050, 15057, 15064, 15072, 15080, 15088, 15096, 15104, 15112, 15120, 15128, 15136, 15144, 15152, 15160, 15168, 15176, 15184, 15192, 15201, 15210, 15219, 15228, 15237, 15246, 15255, 15264, 15273, 15283, 15293, 15303, 15313, 15324, 15339, 15339, 15340, 15342, 15344, 15346, 15348, 15350, 15352, 15354, 15356, 15358, 15360, 15362, 15365, 15368, 15371, 15374, 15377, 15380, 15383, 15386, 15389, 15392, 15395, 15398, 15401, 15405, 15409, 15413, 15417, 15421, 15425, 15429, 15433, 15437, 15441, 15445, 15449, 15453, 15457, 15461, 15465, 15469, 15473, 15477, 15481, 15485, 15490, 15495, 15500, 15505, 15510, 15515, 15520, 15525, 15530, 15535, 15540, 15545, 15550, 15555, 15560, 15565, 15570, 15575, 15580, 15585, 15590, 15595, 15600, 15606, 15612, 15618, 15624, 15630, 15636, 15642, 15648, 15654, 15660, 15666, 15672, 15678, 15684, 15690, 15696, 15702, 15708, 15714, 15720, 15726, 15732, 15738, 15744, 15750, 15756, 15762, 15768, 15774, 15780, 15786, 15793, 15800, 15807, 15814, 15821, 15828, 15835, 15842, 15849, 15856, 15863, 15870, 15877, 15884, 15891, 15898, 15905, 15912, 15919, 15926, 15933, 15940, 15947, 15954, 15961, 15968, 15975, 15982, 15989, 15996, 16003, 16010, 16018, 16026, 16034, 16042, 16050, 16058, 16066, 16074, 16082, 16090, 16098, 16106, 16114, 16122, 16130, 16138, 16146, 16154, 16162, 16170, 16178, 16186, 16194, 16202, 16210, 16218, 16226, 16234, 16242, 16250, 16259, 16268, 16277, 16286, 16295, 16304, 16313, 16322, 16331, 16340, 16349, 16358, 16367, 16376, 16385, 16394, 16404, 16414, 16424, 16434, 16444, 16454, 16464, 16474, 16484, 16495, 16506, 16517, 16528, 16540, 16556, 16556, 16557, 16558, 16559, 16560, 16561, 16562, 16563, 16564, 16565, 16566, 16567, 16569, 16571, 16573, 16575, 16577, 16579, 16581, 16583, 16585, 16587, 16589, 16591, 16593, 16595, 16598, 16601, 16604, 16607, 16610, 16613, 16616, 16619, 16622, 16625, 16628, 16631, 16634, 16637, 16640, 16643, 16646, 16649, 16652, 16655, 16658, 16661, 16665, 16669, 16673, 16677, 16681, 16685, 16689, 16693, 16697, 16701, 16705, 16709, 16713, 16717, 16721, 16725, 16729, 16733, 16737, 16741, 16745, 16749, 16753, 16758, 16763, 16768, 16773, 16778, 16783, 16788, 16793, 16798, 16803, 16808, 16813, 16818, 16823, 16828, 16833, 16838, 16843, 16848, 16853, 16858, 16863, 16868, 16873, 16878, 16883, 16888, 16893, 16898, 16903, 16908, 16914, 16920, 16926, 16932, 16938, 16944, 16950, 16956, 16962, 16968, 16974, 16980, 16986, 16992, 16998, 17004, 17010, 17016, 17022, 17028, 17034, 17040, 17046, 17052, 17058, 17064, 17070, 17076, 17082, 17088, 17094, 17100, 17107, 17114, 17121, 17128, 17135, 17142, 17149, 17156, 17163, 17170, 17177, 17184, 17191, 17198, 17205, 17212, 17219, 17226, 17233, 17240, 17247, 17254, 17261, 17268, 17275, 17282, 17289, 17296, 17303, 17310, 17318, 17326, 17334, 17342, 17350, 17358, 17366, 17374, 17382, 17390, 17398, 17406, 17414, 17422, 17430, 17439, 17448, 17457, 17466, 17475, 17484, 17493, 17502, 17512, 17522, 17532, 17542, 17553, 17568, 17568, 17569, 17571, 17573, 17575, 17577, 17579, 17582, 17585, 17588, 17592, 17592, 17593, 17594, 17595, 17596, 17596, 17597, 17599, 17601, 17603, 17605, 17607, 17609, 17611, 17614, 17617, 17620, 17623, 17626, 17629, 17632, 17636, 17640, 17644, 17648, 17652, 17656, 17660, 17664, 17668, 17672, 17676, 17680, 17685, 17690, 17695, 17700, 17705, 17710, 17715, 17720, 17725, 17730, 17735, 17740, 17745, 17750, 17755, 17761, 17767, 17773, 17779, 17785, 17791, 17797, 17803, 17809, 17815, 17821, 17827, 17833, 17839, 17845, 17851, 17857, 17863, 17869, 17875, 17881, 17887, 17894, 17901, 17908, 17915, 17922, 17929, 17936, 17943, 17950, 17957, 17964, 17971, 17978, 17985, 17992, 17999, 18006, 18013, 18020, 18027, 18035, 18043, 18051, 18059, 18067, 18075, 18083, 18091, 18099, 18107, 18115, 18123, 18131, 18139, 18147, 18155, 18163, 18171, 18179, 18187, 18195, 18203, 18211, 18219, 18227, 18235, 18244, 18253, 18262, 18271, 18280, 18289, 18298, 18307, 18316, 18325, 18334, 18343, 18352, 18361, 18370, 18379, 18388, 18397, 18406, 18415, 18424, 18433, 18442, 18451, 18460, 18469, 18478, 18487, 18497, 18507, 18517, 18527, 18537, 18547, 18557, 18567, 18577, 18587, 18597, 18607, 18617, 18627, 18637, 18647, 18657, 18667, 18677, 18687, 18697, 18707, 18717, 18727, 18737, 18747, 18757, 18767, 18778, 18789, 18800, 18811, 18822, 18833, 18844, 18855, 18866, 18877, 18888, 18899, 18910, 18921, 18933, 18945, 18957, 18969, 18981, 18993, 19005, 19017, 19030, 19043, 19056, 19069, 19083, 19101, 19101, 19102, 19104, 19107, 19111, 19115, 19119, 19123, 19127, 19131, 19136, 19141, 19146, 19151, 19156, 19162, 19168, 19174, 19180, 19186, 19193, 19200, 19207, 19215, 19223, 19231, 19239, 19247, 19256, 19265, 19274, 19283, 19292, 19302, 19312, 19323, 19335, 19347, 19359, 19371, 19383, 19395, 19407, 19419, 19432, 19445, 19458, 19471, 19484, 19497, 19510, 19523, 19536, 19549, 19562, 19575, 19589, 19603, 19617, 19631, 19645, 19659, 19673, 19687, 19701, 19715, 19729, 19743, 19758, 19773, 19788, 19803, 19818, 19833, 19848, 19863, 19879, 19895, 19911, 19927, 19943, 19959, 19975, 19992, 20009, 20026, 20043, 20060, 20078, 20096, 20096, 20097, 20099, 20101, 20103, 20105, 20107, 20110, 20113, 20117, 20117, 20118, 20120, 20123, 20126, 20129, 20132, 20135, 20138, 20141, 20144, 20147, 20151, 20155, 20159, 20163, 20167, 20171, 20175, 20179, 20183, 20187, 20191, 20195, 20200, 20205, 20210, 20215, 20220, 20225, 20230, 20235, 20240, 20245, 20250, 20255, 20260, 20265, 20270, 20276, 20282, 20288, 20294, 20300, 20306, 20312, 20318, 20324, 20330, 20336, 20342, 20349, 20356, 20363, 20370, 20377, 20384, 20391, 20398, 20405, 20412, 20420, 20428, 20436, 20444, 20452, 20460, 20469, 20478, 20487, 20496, 20506, 20520, 20520, 20521, 20523, 20526, 20530, 20534, 20538, 20542, 20546, 20550, 20554, 20558, 20562, 20567, 20572, 20577, 20582, 20587, 20592, 20597, 20602, 20607, 20612, 20617, 20622, 20628, 20634, 20640, 20646, 20652, 20658, 20664, 20670, 20676, 20682, 20688, 20694, 20700, 20706, 20712, 20719, 20726, 20733, 20740, 20747, 20754, 20761, 20768, 20775, 20782, 20789, 20796, 20804, 20812, 20820, 20828, 20836, 20844, 20852, 20860, 20868, 20876, 20885, 20894, 20903, 20912, 20921, 20930, 20940, 20950, 20960, 20970, 20981, 20996, 20996, 20997, 20999, 21001, 21004, 21008, 21012, 21016, 21020, 21024, 21028, 21032, 21036, 21040, 21045, 21050, 21055, 21060, 21065, 21070, 21075, 21080, 21085, 21090, 21095, 21100, 21105, 21111, 21117, 21123, 21129, 21135, 21141, 21147, 21153, 21159, 21165, 21171, 21177, 21183, 21189, 21195, 21202, 21209, 21216, 21223, 21230, 21237, 21244, 21251, 21258, 21265, 21272, 21279, 21287, 21295, 21303, 21311, 21319, 21327, 21335, 21343, 21351, 21359, 21367, 21376, 21385, 21394, 21403, 21412, 21421, 21431, 21441, 21451, 21461, 21472, 21487, 21487, 21488, 21489, 21491, 21493, 21495, 21497, 21499, 21502, 21506, 21510, 21514, 21519, 21524, 21529, 21534, 21539, 21544, 21549, 21554, 21559, 21564, 21569, 21574, 21580, 21586, 21592, 21598, 21604, 21610, 21616, 21622, 21628, 21634, 21640, 21646, 21652, 21658, 21664, 21670, 21676, 21682, 21688, 21694, 21700, 21707, 21714, 21721, 21728, 21735, 21742, 21749, 21756, 21763, 21770, 21777, 21784, 21791, 21798, 21805, 21812, 21819, 21826, 21833, 21840, 21847, 21854, 21861, 21868, 21875, 21882, 21889, 21896, 21903, 21910, 21917, 21924, 21931, 21938, 21945, 21953, 21961, 21969, 21977, 21985, 21993, 22001, 22009, 22017, 22025, 22033, 22041, 22049, 22057, 22065, 22073, 22081, 22089, 22097, 22105, 22113, 22121, 22129, 22137, 22145, 22153, 22161, 22169, 22177, 22185, 22193, 22201, 22209, 22217, 22226, 22235, 22244, 22253, 22262, 22271, 22280, 22289, 22298, 22307, 22316, 22325, 22334, 22343, 22352, 22361, 22370, 22379, 22388, 22397, 22406, 22415, 22424, 22433, 22442, 22451, 22460, 22469, 22478, 22487, 22496, 22505, 22515, 22525, 22535, 22545, 22555, 22565, 22575, 22585, 22595, 22605, 22615, 22625, 22635, 22645, 22655, 22665, 22675, 22685, 22695, 22705, 22715, 22725, 22735, 22745, 22755, 22765, 22775, 22785, 22796, 22807, 22818, 22829, 22840, 22851, 22862, 22873, 22884, 22895, 22906, 22917, 22928, 22939, 22950, 22961, 22973, 22985, 22997, 23009, 23021, 23033, 23045, 23057, 23070, 23083, 23096, 23109, 23122, 23136, 23150, 23164, 23181, 23181, 23182, 23184, 23186, 23188, 23190, 23193, 23197, 23201, 23206, 23211, 23216, 23221, 23226, 23231, 23236, 23241, 23246, 23251, 23256, 23262, 23268, 23274, 23280, 23286, 23292, 23298, 23304, 23310, 23316, 23322, 23328, 23334, 23340, 23346, 23352, 23358, 23364, 23370, 23376, 23382, 23389, 23396, 23403, 23410, 23417, 23424, 23431, 23438, 23445, 23452, 23459, 23466, 23473, 23480, 23487, 23494, 23501, 23508, 23515, 23522, 23529, 23536, 23543, 23550, 23557, 23564, 23571, 23578, 23585, 23592, 23599, 23606, 23613, 23620, 23627, 23635, 23643, 23651, 23659, 23667, 23675, 23683, 23691, 23699, 23707, 23715, 23723, 23731, 23739, 23747, 23755, 23763, 23771, 23779, 23787, 23795, 23803, 23811, 23819, 23827, 23835, 23843, 23851, 23859, 23867, 23875, 23883, 23891, 23899, 23908, 23917, 23926, 23935, 23944, 23953, 23962, 23971, 23980, 23989, 23998, 24007, 24016, 24025, 24034, 24043, 24052, 24061, 24070, 24079, 24088, 24097, 24106, 24115, 24124, 24133, 24142, 24151, 24160, 24169, 24178, 24187, 24197, 24207, 24217, 24227, 24237, 24247, 24257, 24267, 24277, 24287, 24297, 24307, 24317, 24327, 24337, 24347, 24357, 24367, 24377, 24387, 24397, 24407, 24417, 24427, 24437, 24447, 24457, 24467, 24478, 24489, 24500, 24511, 24522, 24533, 24544, 24555, 24566, 24577, 24588, 24599, 24610, 24621, 24632, 24643, 24655, 24667, 24679, 24691, 24703, 24715, 24727, 24739, 24752, 24765, 24778, 24791, 24804, 24818, 24832, 24846, 24863, 24863, 24864, 24866, 24868, 24870, 24872, 24875, 24879, 24883, 24888, 24893, 24898, 24903, 24908, 24913, 24918, 24923, 24928, 24933, 24938, 24944, 24950, 24956, 24962, 24968, 24974, 24980, 24986, 24992, 24998, 25004, 25010, 25016, 25022, 25028, 25034, 25040, 25046, 25052, 25058, 25064, 25071, 25078, 25085, 25092, 25099, 25106, 25113, 25120, 25127, 25134, 25141, 25148, 25155, 25162, 25169, 25176, 25183, 25190, 25197, 25204, 25211, 25218, 25225, 25232, 25239, 25246, 25253, 25260, 25267, 25274, 25281, 25288, 25295, 25302, 25309, 25317, 25325, 25333, 25341, 25349, 25357, 25365, 25373, 25381, 25389, 25397, 25405, 25413, 25421, 25429, 25437, 25445, 25453, 25461, 25469, 25477, 25485, 25493, 25501, 25509, 25517, 25525, 25533, 25541, 25549, 25557, 25565, 25573, 25581, 25590, 25599, 25608, 25617, 25626, 25635, 25644, 25653, 25662, 25671, 25680, 25689, 25698, 25707, 25716, 25725, 25734, 25743, 25752, 25761, 25770, 25779, 25788, 25797, 25806, 25815, 25824, 25833, 25842, 25851, 25860, 25869, 25879, 25889, 25899, 25909, 25919, 25929, 25939, 25949, 25959, 25969, 25979, 25989, 25999, 26009, 26019, 26029, 26039, 26049, 26059, 26069, 26079, 26089, 26099, 26109, 26119, 26129, 26139, 26149, 26160, 26171, 26182, 26193, 26204, 26215, 26226, 26237, 26248, 26259, 26270, 26281, 26292, 26303, 26314, 26325, 26337, 26349, 26361, 26373, 26385, 26397, 26409, 26421, 26434, 26447, 26460, 26473, 26486, 26500, 26514, 26528, 26545, 26545, 26546, 26547, 26548, 26549, 26550, 26551, 26552, 26553, 26554, 26555, 26556, 26557, 26559, 26561, 26563, 26565, 26567, 26569, 26571, 26573, 26575, 26577, 26579, 26581, 26583, 26585, 26588, 26591, 26594, 26597, 26600, 26603, 26606, 26609, 26612, 26615, 26618, 26621, 26624, 26627, 26630, 26633, 26636, 26639, 26642, 26645, 26648, 26651, 26655, 26659, 26663, 26667, 26671, 26675, 26679, 26683, 26687, 26691, 26695, 26699, 26703, 26707, 26711, 26715, 26719, 26723, 26727, 26731, 26735, 26739, 26743, 26748, 26753, 26758, 26763, 26768, 26773, 26778, 26783, 26788, 26793, 26798, 26803, 26808, 26813, 26818, 26823, 26828, 26833, 26838, 26843, 26848, 26853, 26858, 26863, 26868, 26873, 26878, 26883, 26888, 26893, 26898, 26904, 26910, 26916, 26922, 26928, 26934, 26940, 26946, 26952, 26958, 26964, 26970, 26976, 26982, 26988, 26994, 27000, 27006, 27012, 27018, 27024, 27030, 27036, 27042, 27048, 27054, 27060, 27066, 27072, 27078, 27084, 27090, 27097, 27104, 27111, 27118, 27125, 27132, 27139, 27146, 27153, 27160, 27167, 27174, 27181, 27188, 27195, 27202, 27209, 27216, 27223, 27230, 27237, 27244, 27251, 27258, 27265, 27272, 27279, 27286, 27293, 27301, 27309, 27317, 27325, 27333, 27341, 27349, 27357, 27365, 27373, 27381, 27389, 27397, 27405, 27413, 27422, 27431, 27440, 27449, 27458, 27467, 27476, 27485, 27495, 27505, 27515, 27525, 27536, 27551, 27551, 27552, 27554, 27556, 27558, 27561, 27565, 27569, 27574, 27579, 27584, 27589, 27594, 27600, 27606, 27612, 27618, 27624, 27630, 27636, 27642, 27648, 27654, 27660, 27666, 27672, 27678, 27684, 27690, 27696, 27702, 27708, 27714, 27720, 27726, 27732, 27739, 27746, 27753, 27760, 27767, 27774, 27781, 27788, 27795, 27802, 27809, 27816, 27823, 27830, 27837, 27844, 27851, 27858, 27865, 27872, 27879, 27886, 27893, 27900, 27907, 27914, 27922, 27930, 27938, 27946, 27954, 27962, 27970, 27978, 27986, 27994, 28002, 28010, 28018, 28026, 28034, 28042, 28050, 28058, 28066, 28074, 28082, 28090, 28098, 28106, 28114, 28122, 28130, 28138, 28146, 28155, 28164, 28173, 28182, 28191, 28200, 28209, 28218, 28227, 28236, 28245, 28254, 28263, 28272, 28281, 28290, 28299, 28308, 28317, 28326, 28335, 28344, 28353, 28362, 28371, 28380, 28389, 28398, 28407, 28416, 28425, 28434, 28444, 28454, 28464, 28474, 28484, 28494, 28504, 28514, 28524, 28534, 28544, 28554, 28564, 28574, 28584, 28594, 28604, 28614, 28624, 28634, 28644, 28654, 28664, 28674, 28684, 28694, 28704, 28714, 28725, 28736, 28747, 28758, 28769, 28780, 28791, 28802, 28813, 28824, 28835, 28846, 28857, 28868, 28879, 28890, 28901, 28912, 28923, 28934, 28945, 28957, 28969, 28981, 28993, 29005, 29017, 29029, 29041, 29053, 29065, 29077, 29089, 29101, 29114, 29127, 29140, 29153, 29166, 29179, 29192, 29205, 29218, 29231, 29244, 29257, 29271, 29285, 29299, 29313, 29327, 29341, 29355, 29370, 29385, 29400, 29415, 29430, 29446, 29463, 29480, 29497, 29515, 29515, 29516, 29518, 29521, 29525, 29529, 29533, 29537, 29541, 29545, 29549, 29553, 29557, 29562, 29567, 29572, 29577, 29582, 29587, 29592, 29597, 29602, 29607, 29612, 29617, 29622, 29628, 29634, 29640, 29646, 29652, 29658, 29664, 29670, 29676, 29682, 29688, 29694, 29700, 29706, 29712, 29718, 29724, 29730, 29736, 29742, 29748, 29754, 29760, 29766, 29772, 29778, 29784, 29790, 29796, 29803, 29810, 29817, 29824, 29831, 29838, 29845, 29852, 29859, 29866, 29873, 29880, 29887, 29894, 29901, 29908, 29915, 29922, 29929, 29936, 29943, 29950, 29957, 29964, 29971, 29979, 29987, 29995, 30003, 30011, 30019, 30027, 30035, 30043, 30051, 30059, 30067, 30075, 30083, 30091, 30099, 30107, 30115, 30123, 30132, 30141, 30150, 30159, 30168, 30177, 30186, 30195, 30204, 30213, 30222, 30231, 30240, 30250, 30260, 30270, 30280, 30290, 30300, 30310, 30320, 30330, 30340, 30351, 30362, 30373, 30384, 30395, 30406, 30417, 30428, 30440, 30452, 30464, 30477, 30490, 30503, 30518, 30518, 30519, 30521, 30523, 30525, 30527, 30529, 30531, 30533, 30535, 30537, 30539, 30541, 30543, 30545, 30547, 30549, 30551, 30554, 30557, 30560, 30563, 30566, 30569, 30572, 30575, 30578, 30581, 30584, 30587, 30590, 30593, 30596, 30599, 30602, 30606, 30610, 30614, 30618, 30622, 30626, 30630, 30634, 30638, 30642, 30646, 30650, 30654, 30658, 30662, 30666, 30670, 30674, 30678, 30682, 30686, 30690, 30695, 30700, 30705, 30710, 30715, 30720, 30725, 30730, 30735, 30740, 30745, 30750, 30755, 30760, 30765, 30770, 30775, 30780, 30785, 30790, 30795, 30801, 30807, 30813, 30819, 30825, 30831, 30837, 30843, 30849, 30855, 30861, 30867, 30873, 30879, 30885, 30891, 30897, 30903, 30909, 30915, 30921, 30927, 30933, 30939, 30945, 30952, 30959, 30966, 30973, 30980, 30987, 30994, 31001, 31008, 31015, 31022, 31029, 31036, 31043, 31050, 31057, 31064, 31072, 31080, 31088, 31096, 31104, 31112, 31120, 31129, 31138, 31147, 31156, 31166, 31180];
pub static EPFLAT: [u8; 31180] = [51, 37, 51, 57, 37, 51, 57, 51, 47, 51, 47, 51, 25, 25, 37, 25, 51, 25, 57, 25, 51, 47, 25, 51, 51, 25, 51, 25, 51, 25, 51, 47, 51, 37, 50, 51, 53, 57, 51, 4, 53, 4, 51, 4, 51, 53, 4, 51, 37, 51, 55, 56, 57, 51, 4, 51, 4, 55, 8, 37, 51, 55, 56, 57, 8, 9, 51, 4, 55, 55, 51, 4, 55, 8, 22, 37, 43, 50, 51, 53, 57, 58, 8, 50, 22, 58, 43, 8, 43, 50, 50, 8, 50, 43, 50, 50, 50, 58, 51, 4, 51, 29, 53, 4, 8, 50, 9, 8, 50, 14, 22, 58, 4, 43, 8, 50, 43, 50, 8, 43, 50, 43, 43, 50, 50, 50, 8, 50, 50, 43, 50, 51, 4, 51, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 53, 4, 51, 8, 50, 14, 50, 22, 58, 4, 50, 43, 8, 50, 9, 43, 50, 8, 50, 43, 50, 43, 50, 43, 51, 29, 30, 50, 8, 50, 9, 50, 43, 50, 50, 50, 51, 29, 30, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 43, 8, 51, 29, 30, 43, 50, 8, 50, 8, 43, 50, 8, 50, 9, 43, 50, 8, 50, 43, 43, 50, 8, 50, 50, 43, 50, 43, 50, 50, 43, 50, 51, 29, 30, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 43, 8, 51, 29, 30, 9, 43, 50, 8, 50, 8, 50, 43, 50, 8, 50, 43, 50, 43, 50, 8, 50, 50, 50, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 43, 50, 8, 50, 43, 50, 50, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 22, 37, 43, 50, 51, 53, 57, 58, 8, 50, 22, 58, 43, 8, 43, 50, 50, 8, 50, 14, 50, 43, 50, 50, 50, 58, 51, 4, 51, 29, 53, 4, 8, 50, 9, 8, 50, 14, 22, 58, 4, 43, 8, 50, 43, 50, 8, 43, 50, 43, 43, 50, 50, 50, 8, 50, 50, 14, 50, 50, 43, 50, 51, 4, 51, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 53, 4, 51, 8, 50, 14, 50, 22, 58, 4, 50, 43, 8, 50, 9, 43, 50, 8, 50, 43, 50, 43, 50, 43, 51, 29, 30, 50, 8, 50, 9, 50, 43, 50, 50, 50, 51, 29, 30, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 43, 8, 51, 29, 30, 43, 50, 8, 50, 8, 43, 50, 8, 50, 9, 43, 50, 8, 50, 43, 43, 50, 8, 50, 50, 43, 50, 43, 50, 50, 43, 50, 51, 29, 30, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 43, 8, 51, 29, 30, 9, 43, 50, 8, 50, 8, 50, 43, 50, 8, 50, 43, 50, 43, 50, 8, 50, 50, 50, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 43, 50, 8, 50, 43, 50, 50, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 22, 37, 43, 50, 51, 53, 57, 58, 8, 50, 22, 58, 43, 8, 43, 50, 50, 8, 50, 14, 50, 43, 50, 50, 50, 58, 51, 4, 51, 29, 53, 4, 8, 50, 9, 22, 58, 4, 43, 8, 50, 43, 50, 8, 43, 50, 43, 43, 50, 50, 50, 8, 50, 50, 14, 50, 50, 43, 50, 51, 4, 51, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 53, 4, 51, 22, 58, 4, 50, 43, 8, 50, 9, 43, 50, 8, 50, 43, 50, 43, 50, 43, 51, 29, 30, 50, 8, 50, 9, 50, 43, 50, 50, 50, 51, 29, 30, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 43, 8, 51, 29, 30, 43, 50, 8, 50, 8, 43, 50, 8, 50, 9, 43, 50, 8, 50, 43, 43, 50, 8, 50, 50, 43, 50, 43, 50, 50, 43, 50, 51, 29, 30, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 43, 8, 51, 29, 30, 9, 43, 50, 8, 50, 8, 50, 43, 50, 8, 50, 43, 50, 43, 50, 8, 50, 50, 50, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 43, 50, 8, 50, 43, 50, 50, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 37, 43, 50, 51, 53, 57, 58, 8, 8, 8, 22, 8, 43, 8, 50, 8, 58, 43, 8, 43, 50, 51, 4, 51, 29, 53, 4, 8, 8, 50, 8, 22, 58, 8, 43, 50, 8, 50, 9, 8, 50, 14, 8, 50, 50, 43, 8, 50, 43, 50, 8, 43, 50, 43, 43, 50, 50, 51, 4, 51, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 53, 4, 51, 8, 8, 50, 9, 8, 22, 58, 4, 8, 43, 50, 50, 8, 50, 14, 50, 8, 51, 29, 30, 43, 8, 50, 9, 43, 50, 8, 50, 43, 50, 43, 50, 43, 51, 29, 30, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 8, 22, 58, 4, 50, 43, 8, 51, 29, 30, 43, 50, 8, 50, 8, 43, 50, 8, 50, 9, 43, 50, 8, 50, 43, 43, 50, 8, 50, 50, 43, 50, 43, 50, 50, 43, 50, 51, 29, 30, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 43, 8, 51, 29, 30, 9, 43, 50, 8, 50, 8, 50, 43, 50, 8, 50, 43, 50, 43, 50, 8, 50, 50, 50, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 43, 50, 8, 50, 43, 50, 50, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 37, 51, 57, 51, 29, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 8, 51, 29, 33, 38, 55, 3, 22, 51, 29, 33, 38, 55, 3, 43, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 51, 51, 29, 33, 38, 55, 3, 53, 51, 29, 33, 38, 55, 3, 58, 51, 29, 33, 38, 55, 3, 8, 50, 51, 29, 33, 38, 55, 3, 22, 58, 51, 29, 33, 38, 55, 3, 43, 8, 51, 29, 33, 38, 55, 3, 43, 50, 51, 29, 33, 38, 55, 3, 50, 8, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 14, 51, 29, 33, 38, 55, 3, 50, 43, 51, 29, 33, 38, 55, 3, 50, 50, 51, 29, 33, 38, 55, 3, 50, 58, 51, 29, 33, 38, 55, 3, 51, 4, 51, 29, 33, 38, 55, 3, 53, 4, 51, 29, 33, 38, 55, 3, 8, 50, 9, 51, 29, 33, 38, 55, 3, 22, 58, 4, 51, 29, 33, 38, 55, 3, 43, 8, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 51, 29, 33, 38, 55, 3, 43, 50, 43, 51, 29, 33, 38, 55, 3, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 8, 50, 51, 29, 33, 38, 55, 3, 50, 14, 50, 51, 29, 33, 38, 55, 3, 50, 43, 50, 51, 29, 33, 38, 55, 3, 51, 4, 51, 51, 29, 33, 38, 55, 3, 51, 29, 30, 51, 29, 33, 38, 55, 3, 53, 4, 51, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 51, 29, 33, 38, 55, 3, 43, 8, 50, 9, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 51, 29, 33, 38, 55, 3, 43, 50, 43, 50, 51, 29, 33, 38, 55, 3, 43, 51, 29, 30, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 51, 29, 33, 38, 55, 3, 43, 8, 51, 29, 30, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 50, 51, 29, 33, 38, 55, 3, 43, 50, 43, 50, 50, 51, 29, 33, 38, 55, 3, 43, 50, 51, 29, 30, 51, 29, 33, 38, 55, 3, 43, 8, 51, 29, 30, 9, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 50, 50, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 50, 50, 38, 38, 37, 38, 51, 38, 55, 38, 56, 38, 57, 38, 51, 4, 38, 55, 3, 38, 51, 4, 55, 38, 55, 3, 8, 38, 55, 3, 22, 38, 55, 3, 43, 38, 55, 3, 50, 38, 55, 3, 51, 38, 55, 3, 53, 38, 55, 3, 58, 38, 55, 3, 8, 50, 38, 55, 3, 22, 58, 38, 55, 3, 43, 8, 38, 55, 3, 43, 50, 38, 55, 3, 50, 8, 38, 55, 3, 50, 12, 38, 55, 3, 50, 14, 38, 55, 3, 50, 43, 38, 55, 3, 50, 50, 38, 55, 3, 50, 58, 38, 55, 3, 51, 4, 38, 55, 3, 51, 29, 38, 55, 3, 53, 4, 38, 55, 3, 8, 50, 9, 38, 55, 3, 22, 58, 4, 38, 55, 3, 43, 8, 50, 38, 55, 3, 43, 50, 8, 38, 55, 3, 43, 50, 43, 38, 55, 3, 43, 50, 50, 38, 55, 3, 50, 8, 50, 38, 55, 3, 50, 14, 50, 38, 55, 3, 50, 43, 50, 38, 55, 3, 51, 4, 51, 38, 55, 3, 51, 29, 24, 38, 55, 3, 51, 29, 30, 38, 55, 3, 51, 29, 33, 38, 55, 3, 51, 29, 56, 38, 55, 3, 53, 4, 51, 38, 55, 3, 22, 58, 4, 50, 38, 55, 3, 43, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 38, 55, 3, 43, 50, 43, 50, 38, 55, 3, 43, 51, 29, 30, 38, 55, 3, 50, 8, 50, 9, 38, 55, 3, 50, 43, 50, 50, 38, 55, 3, 50, 51, 29, 30, 38, 55, 3, 51, 29, 24, 30, 38, 55, 3, 51, 29, 33, 30, 38, 55, 3, 51, 29, 56, 30, 38, 55, 3, 43, 8, 51, 29, 30, 38, 55, 3, 43, 50, 8, 50, 8, 38, 55, 3, 43, 50, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 43, 38, 55, 3, 43, 50, 8, 50, 50, 38, 55, 3, 43, 50, 43, 50, 50, 38, 55, 3, 43, 50, 51, 29, 30, 38, 55, 3, 43, 8, 51, 29, 30, 9, 38, 55, 3, 43, 50, 8, 50, 8, 50, 38, 55, 3, 43, 50, 8, 50, 43, 50, 38, 55, 3, 43, 50, 8, 50, 50, 50, 38, 55, 3, 50, 12, 38, 55, 3, 50, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 43, 50, 50, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 12, 38, 12, 38, 37, 12, 38, 51, 12, 38, 55, 12, 38, 56, 12, 38, 57, 12, 38, 51, 4, 12, 38, 55, 3, 12, 38, 51, 4, 55, 12, 38, 55, 3, 8, 12, 38, 55, 3, 22, 12, 38, 55, 3, 43, 12, 38, 55, 3, 50, 12, 38, 55, 3, 51, 12, 38, 55, 3, 53, 12, 38, 55, 3, 58, 12, 38, 55, 3, 8, 50, 12, 38, 55, 3, 22, 58, 12, 38, 55, 3, 43, 8, 12, 38, 55, 3, 43, 50, 12, 38, 55, 3, 50, 8, 12, 38, 55, 3, 50, 14, 12, 38, 55, 3, 50, 43, 12, 38, 55, 3, 50, 50, 12, 38, 55, 3, 50, 58, 12, 38, 55, 3, 51, 4, 12, 38, 55, 3, 51, 29, 12, 38, 55, 3, 53, 4, 12, 38, 55, 3, 8, 50, 9, 12, 38, 55, 3, 22, 58, 4, 12, 38, 55, 3, 43, 8, 50, 12, 38, 55, 3, 43, 50, 8, 12, 38, 55, 3, 43, 50, 43, 12, 38, 55, 3, 43, 50, 50, 12, 38, 55, 3, 50, 8, 50, 12, 38, 55, 3, 50, 14, 50, 12, 38, 55, 3, 50, 43, 50, 12, 38, 55, 3, 51, 4, 51, 12, 38, 55, 3, 51, 29, 24, 12, 38, 55, 3, 51, 29, 30, 12, 38, 55, 3, 51, 29, 33, 12, 38, 55, 3, 51, 29, 56, 12, 38, 55, 3, 53, 4, 51, 12, 38, 55, 3, 22, 58, 4, 50, 12, 38, 55, 3, 43, 8, 50, 9, 12, 38, 55, 3, 43, 50, 8, 50, 12, 38, 55, 3, 43, 50, 43, 50, 12, 38, 55, 3, 43, 51, 29, 30, 12, 38, 55, 3, 50, 8, 50, 9, 12, 38, 55, 3, 50, 43, 50, 50, 12, 38, 55, 3, 50, 51, 29, 30, 12, 38, 55, 3, 51, 29, 24, 30, 12, 38, 55, 3, 51, 29, 33, 30, 12, 38, 55, 3, 51, 29, 56, 30, 12, 38, 55, 3, 43, 8, 51, 29, 30, 12, 38, 55, 3, 43, 50, 8, 50, 8, 12, 38, 55, 3, 43, 50, 8, 50, 9, 12, 38, 55, 3, 43, 50, 8, 50, 43, 12, 38, 55, 3, 43, 50, 8, 50, 50, 12, 38, 55, 3, 43, 50, 43, 50, 50, 12, 38, 55, 3, 43, 50, 51, 29, 30, 12, 38, 55, 3, 43, 8, 51, 29, 30, 9, 12, 38, 55, 3, 43, 50, 8, 50, 8, 50, 12, 38, 55, 3, 43, 50, 8, 50, 43, 50, 12, 38, 55, 3, 43, 50, 8, 50, 50, 50, 12, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 12, 38, 55, 3, 43, 50, 8, 50, 43, 50, 50, 12, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 12, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 38, 38, 37, 38, 51, 38, 55, 38, 56, 38, 57, 38, 51, 4, 38, 55, 3, 38, 51, 4, 55, 38, 55, 3, 8, 38, 55, 3, 22, 38, 55, 3, 43, 38, 55, 3, 50, 38, 55, 3, 51, 38, 55, 3, 53, 38, 55, 3, 58, 38, 55, 3, 8, 50, 38, 55, 3, 22, 58, 38, 55, 3, 43, 8, 38, 55, 3, 43, 50, 38, 55, 3, 50, 8, 38, 55, 3, 50, 14, 38, 55, 3, 50, 43, 38, 55, 3, 50, 50, 38, 55, 3, 50, 58, 38, 55, 3, 51, 4, 38, 55, 3, 51, 29, 38, 55, 3, 53, 4, 38, 55, 3, 8, 50, 9, 38, 55, 3, 22, 58, 4, 38, 55, 3, 43, 8, 50, 38, 55, 3, 43, 50, 8, 38, 55, 3, 43, 50, 43, 38, 55, 3, 43, 50, 50, 38, 55, 3, 50, 8, 50, 38, 55, 3, 50, 14, 50, 38, 55, 3, 50, 43, 50, 38, 55, 3, 51, 4, 51, 38, 55, 3, 51, 29, 24, 38, 55, 3, 51, 29, 30, 38, 55, 3, 51, 29, 33, 38, 55, 3, 51, 29, 56, 38, 55, 3, 53, 4, 51, 38, 55, 3, 22, 58, 4, 50, 38, 55, 3, 43, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 38, 55, 3, 43, 50, 43, 50, 38, 55, 3, 43, 51, 29, 30, 38, 55, 3, 50, 8, 50, 9, 38, 55, 3, 50, 43, 50, 50, 38, 55, 3, 50, 51, 29, 30, 38, 55, 3, 51, 29, 24, 30, 38, 55, 3, 51, 29, 33, 30, 38, 55, 3, 51, 29, 56, 30, 38, 55, 3, 43, 8, 51, 29, 30, 38, 55, 3, 43, 50, 8, 50, 8, 38, 55, 3, 43, 50, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 43, 38, 55, 3, 43, 50, 8, 50, 50, 38, 55, 3, 43, 50, 43, 50, 50, 38, 55, 3, 43, 50, 51, 29, 30, 38, 55, 3, 43, 8, 51, 29, 30, 9, 38, 55, 3, 43, 50, 8, 50, 8, 50, 38, 55, 3, 43, 50, 8, 50, 43, 50, 38, 55, 3, 43, 50, 8, 50, 50, 50, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 43, 50, 50, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 37, 50, 51, 53, 57, 8, 50, 51, 4, 51, 29, 53, 4, 8, 50, 9, 51, 4, 51, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 53, 4, 51, 8, 51, 29, 30, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 8, 51, 29, 30, 9, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 8, 51, 29, 33, 38, 55, 3, 22, 51, 29, 33, 38, 55, 3, 43, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 58, 51, 29, 33, 38, 55, 3, 8, 50, 51, 29, 33, 38, 55, 3, 22, 58, 51, 29, 33, 38, 55, 3, 43, 50, 51, 29, 33, 38, 55, 3, 50, 8, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 14, 51, 29, 33, 38, 55, 3, 50, 43, 51, 29, 33, 38, 55, 3, 50, 50, 51, 29, 33, 38, 55, 3, 50, 58, 51, 29, 33, 38, 55, 3, 8, 50, 9, 51, 29, 33, 38, 55, 3, 22, 58, 4, 51, 29, 33, 38, 55, 3, 43, 50, 8, 51, 29, 33, 38, 55, 3, 43, 50, 43, 51, 29, 33, 38, 55, 3, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 8, 50, 51, 29, 33, 38, 55, 3, 50, 14, 50, 51, 29, 33, 38, 55, 3, 50, 43, 50, 51, 29, 33, 38, 55, 3, 51, 29, 30, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 51, 29, 33, 38, 55, 3, 43, 50, 43, 50, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 50, 51, 29, 33, 38, 55, 3, 43, 50, 43, 50, 50, 51, 29, 33, 38, 55, 3, 43, 50, 51, 29, 30, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 50, 50, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 50, 50, 8, 37, 43, 50, 51, 53, 57, 8, 50, 43, 8, 43, 50, 51, 4, 51, 29, 53, 4, 8, 50, 8, 8, 50, 9, 8, 50, 43, 8, 50, 50, 43, 8, 50, 43, 50, 50, 51, 4, 51, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 53, 4, 51, 8, 50, 8, 50, 8, 50, 43, 50, 8, 50, 50, 50, 43, 8, 50, 9, 43, 51, 29, 30, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 8, 50, 8, 50, 9, 8, 50, 43, 50, 50, 43, 8, 51, 29, 30, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 43, 8, 51, 29, 30, 9, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 8, 51, 29, 33, 38, 55, 3, 22, 51, 29, 33, 38, 55, 3, 43, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 58, 51, 29, 33, 38, 55, 3, 8, 50, 51, 29, 33, 38, 55, 3, 22, 58, 51, 29, 33, 38, 55, 3, 43, 50, 51, 29, 33, 38, 55, 3, 50, 8, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 14, 51, 29, 33, 38, 55, 3, 50, 43, 51, 29, 33, 38, 55, 3, 50, 50, 51, 29, 33, 38, 55, 3, 50, 58, 51, 29, 33, 38, 55, 3, 8, 50, 9, 51, 29, 33, 38, 55, 3, 22, 58, 4, 51, 29, 33, 38, 55, 3, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 8, 50, 51, 29, 33, 38, 55, 3, 50, 14, 50, 51, 29, 33, 38, 55, 3, 50, 43, 50, 51, 29, 33, 38, 55, 3, 51, 29, 30, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 37, 43, 50, 51, 53, 57, 8, 8, 8, 43, 8, 50, 43, 8, 43, 50, 43, 51, 51, 4, 53, 4, 8, 8, 50, 8, 43, 50, 8, 50, 9, 8, 50, 50, 43, 8, 50, 43, 50, 50, 43, 51, 29, 51, 4, 51, 53, 4, 51, 8, 8, 50, 9, 8, 43, 50, 50, 8, 50, 50, 50, 8, 51, 29, 30, 43, 8, 50, 9, 43, 51, 29, 24, 43, 51, 29, 30, 43, 51, 29, 33, 43, 51, 29, 56, 43, 8, 51, 29, 30, 43, 51, 29, 24, 30, 43, 51, 29, 33, 30, 43, 51, 29, 33, 38, 43, 51, 29, 56, 30, 43, 8, 51, 29, 30, 9, 43, 51, 29, 33, 38, 51, 43, 51, 29, 33, 38, 55, 43, 51, 29, 33, 38, 56, 43, 51, 29, 33, 38, 51, 4, 43, 51, 29, 33, 38, 55, 3, 43, 51, 29, 33, 38, 51, 4, 55, 43, 51, 29, 33, 38, 55, 3, 8, 43, 51, 29, 33, 38, 55, 3, 22, 43, 51, 29, 33, 38, 55, 3, 43, 43, 51, 29, 33, 38, 55, 3, 50, 43, 51, 29, 33, 38, 55, 3, 58, 43, 51, 29, 33, 38, 55, 3, 8, 50, 43, 51, 29, 33, 38, 55, 3, 22, 58, 43, 51, 29, 33, 38, 55, 3, 43, 50, 43, 51, 29, 33, 38, 55, 3, 50, 8, 43, 51, 29, 33, 38, 55, 3, 50, 12, 43, 51, 29, 33, 38, 55, 3, 50, 14, 43, 51, 29, 33, 38, 55, 3, 50, 43, 43, 51, 29, 33, 38, 55, 3, 50, 50, 43, 51, 29, 33, 38, 55, 3, 50, 58, 43, 51, 29, 33, 38, 55, 3, 8, 50, 9, 43, 51, 29, 33, 38, 55, 3, 22, 58, 4, 43, 51, 29, 33, 38, 55, 3, 43, 50, 50, 43, 51, 29, 33, 38, 55, 3, 50, 8, 50, 43, 51, 29, 33, 38, 55, 3, 50, 14, 50, 43, 51, 29, 33, 38, 55, 3, 50, 43, 50, 43, 51, 29, 33, 38, 55, 3, 51, 29, 30, 43, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 43, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 43, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 43, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 43, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 44, 44, 52, 44, 52, 24, 44, 52, 25, 44, 52, 33, 44, 52, 24, 51, 44, 52, 25, 51, 44, 52, 33, 37, 44, 52, 33, 51, 44, 52, 33, 57, 44, 52, 24, 51, 26, 44, 52, 24, 51, 45, 44, 52, 25, 51, 47, 44, 52, 25, 51, 51, 44, 52, 33, 51, 8, 44, 52, 24, 51, 26, 55, 44, 52, 24, 51, 45, 51, 44, 52, 25, 51, 47, 51, 44, 52, 33, 51, 8, 9, 44, 52, 33, 51, 8, 55, 44, 52, 24, 51, 26, 55, 15, 44, 52, 24, 51, 45, 51, 15, 44, 52, 33, 51, 8, 9, 29, 44, 52, 33, 51, 8, 9, 34, 44, 52, 33, 51, 8, 9, 38, 44, 52, 33, 51, 8, 9, 48, 44, 52, 33, 51, 8, 55, 3, 44, 52, 24, 51, 26, 55, 3, 50, 44, 52, 24, 51, 26, 55, 15, 10, 44, 52, 24, 51, 26, 55, 15, 19, 44, 52, 24, 51, 26, 55, 15, 23, 44, 52, 24, 51, 26, 55, 15, 26, 44, 52, 24, 51, 26, 55, 15, 28, 44, 52, 24, 51, 26, 55, 15, 31, 44, 52, 24, 51, 26, 55, 15, 32, 44, 52, 24, 51, 26, 55, 15, 49, 44, 52, 24, 51, 26, 55, 15, 50, 44, 52, 24, 51, 26, 55, 15, 51, 44, 52, 24, 51, 26, 55, 15, 53, 44, 52, 24, 51, 26, 55, 15, 54, 44, 52, 24, 51, 26, 55, 15, 55, 44, 52, 24, 51, 26, 55, 15, 56, 44, 52, 24, 51, 45, 51, 15, 5, 44, 52, 33, 51, 8, 9, 29, 55, 44, 52, 33, 51, 8, 9, 34, 51, 44, 52, 33, 51, 8, 9, 34, 55, 44, 52, 33, 51, 8, 9, 48, 51, 44, 52, 33, 51, 8, 55, 3, 8, 44, 52, 33, 51, 8, 55, 3, 22, 44, 52, 33, 51, 8, 55, 3, 43, 44, 52, 33, 51, 8, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 51, 44, 52, 33, 51, 8, 55, 3, 58, 44, 52, 24, 51, 26, 55, 15, 10, 55, 44, 52, 24, 51, 26, 55, 15, 19, 55, 44, 52, 24, 51, 26, 55, 15, 23, 55, 44, 52, 24, 51, 26, 55, 15, 26, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 44, 52, 24, 51, 26, 55, 15, 31, 8, 44, 52, 24, 51, 26, 55, 15, 32, 58, 44, 52, 24, 51, 26, 55, 15, 49, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 44, 52, 24, 51, 26, 55, 15, 50, 10, 44, 52, 24, 51, 26, 55, 15, 50, 55, 44, 52, 24, 51, 26, 55, 15, 51, 4, 44, 52, 24, 51, 26, 55, 15, 51, 52, 44, 52, 24, 51, 26, 55, 15, 53, 4, 44, 52, 24, 51, 26, 55, 15, 55, 55, 44, 52, 24, 51, 45, 51, 15, 5, 51, 44, 52, 33, 51, 8, 9, 29, 55, 13, 44, 52, 33, 51, 8, 55, 3, 8, 50, 44, 52, 33, 51, 8, 55, 3, 22, 58, 44, 52, 33, 51, 8, 55, 3, 43, 50, 44, 52, 33, 51, 8, 55, 3, 50, 8, 44, 52, 33, 51, 8, 55, 3, 50, 12, 44, 52, 33, 51, 8, 55, 3, 50, 14, 44, 52, 33, 51, 8, 55, 3, 50, 43, 44, 52, 33, 51, 8, 55, 3, 50, 50, 44, 52, 33, 51, 8, 55, 3, 50, 58, 44, 52, 33, 51, 8, 55, 3, 51, 29, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 44, 52, 24, 51, 26, 55, 15, 19, 55, 50, 44, 52, 24, 51, 26, 55, 15, 23, 55, 8, 44, 52, 24, 51, 26, 55, 15, 23, 55, 55, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 44, 52, 24, 51, 26, 55, 15, 32, 58, 13, 44, 52, 24, 51, 26, 55, 15, 49, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 44, 52, 24, 51, 26, 55, 15, 49, 50, 50, 44, 52, 24, 51, 26, 55, 15, 50, 10, 11, 44, 52, 24, 51, 26, 55, 15, 51, 4, 51, 44, 52, 24, 51, 26, 55, 15, 51, 4, 55, 44, 52, 24, 51, 26, 55, 15, 53, 4, 51, 44, 52, 24, 51, 45, 51, 15, 5, 51, 46, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 44, 52, 33, 51, 8, 9, 38, 55, 3, 50, 44, 52, 33, 51, 8, 9, 48, 51, 8, 9, 44, 52, 33, 51, 8, 55, 3, 8, 50, 9, 44, 52, 33, 51, 8, 55, 3, 22, 58, 4, 44, 52, 33, 51, 8, 55, 3, 43, 50, 50, 44, 52, 33, 51, 8, 55, 3, 50, 8, 50, 44, 52, 33, 51, 8, 55, 3, 50, 14, 50, 44, 52, 33, 51, 8, 55, 3, 50, 43, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 24, 44, 52, 33, 51, 8, 55, 3, 51, 29, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 44, 52, 33, 51, 8, 55, 3, 51, 29, 56, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 55, 44, 52, 24, 51, 26, 55, 15, 23, 55, 8, 9, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 30, 44, 52, 24, 51, 26, 55, 15, 32, 58, 13, 55, 44, 52, 24, 51, 26, 55, 15, 49, 8, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 50, 44, 52, 24, 51, 26, 55, 15, 49, 51, 29, 30, 44, 52, 24, 51, 45, 51, 15, 5, 51, 5, 51, 44, 52, 24, 51, 45, 51, 15, 5, 51, 46, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 22, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 35, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 36, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 41, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 42, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 51, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 44, 52, 33, 51, 8, 9, 38, 55, 3, 50, 15, 44, 52, 33, 51, 8, 9, 48, 51, 8, 9, 30, 44, 52, 33, 51, 8, 55, 3, 22, 58, 4, 50, 44, 52, 33, 51, 8, 55, 3, 50, 8, 50, 9, 44, 52, 33, 51, 8, 55, 3, 50, 43, 50, 50, 44, 52, 33, 51, 8, 55, 3, 50, 51, 29, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 24, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 30, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 44, 52, 33, 51, 8, 55, 3, 51, 29, 56, 30, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 2, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 11, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 55, 27, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 55, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 44, 52, 24, 51, 26, 55, 15, 49, 8, 51, 29, 30, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 43, 50, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 51, 29, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 22, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 35, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 36, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 41, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 42, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 15, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 18, 44, 52, 33, 51, 8, 9, 38, 55, 3, 50, 15, 55, 44, 52, 33, 51, 8, 55, 3, 50, 12, 55, 3, 50, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 44, 52, 24, 51, 26, 55, 15, 26, 55, 15, 55, 27, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 21, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 50, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 55, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 8, 51, 29, 30, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 50, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 22, 55, 51, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 39, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 15, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 18, 55, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 55, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 50, 9, 44, 52, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 50, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 55, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 44, 52, 24, 51, 26, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 44, 52, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 9, 44, 52, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 41, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 18, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 4, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 18, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 4, 56, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 9, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 55, 6, 55, 7, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 51, 29, 30, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 6, 55, 7, 44, 52, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 44, 52, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 24, 24, 37, 24, 51, 24, 57, 24, 51, 26, 24, 51, 45, 24, 51, 26, 55, 24, 51, 45, 51, 24, 51, 26, 55, 3, 24, 51, 26, 55, 15, 24, 51, 45, 51, 15, 24, 51, 26, 55, 3, 8, 24, 51, 26, 55, 3, 22, 24, 51, 26, 55, 3, 43, 24, 51, 26, 55, 3, 50, 24, 51, 26, 55, 3, 51, 24, 51, 26, 55, 3, 58, 24, 51, 26, 55, 15, 10, 24, 51, 26, 55, 15, 19, 24, 51, 26, 55, 15, 23, 24, 51, 26, 55, 15, 26, 24, 51, 26, 55, 15, 28, 24, 51, 26, 55, 15, 31, 24, 51, 26, 55, 15, 32, 24, 51, 26, 55, 15, 49, 24, 51, 26, 55, 15, 50, 24, 51, 26, 55, 15, 51, 24, 51, 26, 55, 15, 53, 24, 51, 26, 55, 15, 54, 24, 51, 26, 55, 15, 55, 24, 51, 26, 55, 15, 56, 24, 51, 45, 51, 15, 5, 24, 51, 26, 55, 3, 8, 50, 24, 51, 26, 55, 3, 22, 58, 24, 51, 26, 55, 3, 43, 50, 24, 51, 26, 55, 3, 50, 8, 24, 51, 26, 55, 3, 50, 14, 24, 51, 26, 55, 3, 50, 43, 24, 51, 26, 55, 3, 50, 50, 24, 51, 26, 55, 3, 50, 58, 24, 51, 26, 55, 3, 51, 29, 24, 51, 26, 55, 15, 10, 55, 24, 51, 26, 55, 15, 19, 55, 24, 51, 26, 55, 15, 23, 55, 24, 51, 26, 55, 15, 26, 55, 24, 51, 26, 55, 15, 28, 55, 24, 51, 26, 55, 15, 31, 8, 24, 51, 26, 55, 15, 32, 58, 24, 51, 26, 55, 15, 49, 8, 24, 51, 26, 55, 15, 49, 50, 24, 51, 26, 55, 15, 50, 10, 24, 51, 26, 55, 15, 50, 55, 24, 51, 26, 55, 15, 51, 4, 24, 51, 26, 55, 15, 51, 52, 24, 51, 26, 55, 15, 53, 4, 24, 51, 26, 55, 15, 55, 55, 24, 51, 45, 51, 15, 5, 51, 24, 51, 26, 55, 3, 8, 50, 9, 24, 51, 26, 55, 3, 22, 58, 4, 24, 51, 26, 55, 3, 43, 50, 50, 24, 51, 26, 55, 3, 50, 8, 50, 24, 51, 26, 55, 3, 50, 14, 50, 24, 51, 26, 55, 3, 50, 43, 50, 24, 51, 26, 55, 3, 51, 29, 24, 24, 51, 26, 55, 3, 51, 29, 30, 24, 51, 26, 55, 3, 51, 29, 33, 24, 51, 26, 55, 3, 51, 29, 56, 24, 51, 26, 55, 15, 10, 55, 3, 24, 51, 26, 55, 15, 19, 55, 50, 24, 51, 26, 55, 15, 23, 55, 8, 24, 51, 26, 55, 15, 23, 55, 55, 24, 51, 26, 55, 15, 26, 55, 15, 24, 51, 26, 55, 15, 28, 55, 29, 24, 51, 26, 55, 15, 31, 8, 55, 24, 51, 26, 55, 15, 32, 58, 13, 24, 51, 26, 55, 15, 49, 8, 50, 24, 51, 26, 55, 15, 49, 50, 8, 24, 51, 26, 55, 15, 49, 50, 43, 24, 51, 26, 55, 15, 49, 50, 50, 24, 51, 26, 55, 15, 50, 10, 11, 24, 51, 26, 55, 15, 51, 4, 51, 24, 51, 26, 55, 15, 51, 4, 55, 24, 51, 26, 55, 15, 53, 4, 51, 24, 51, 45, 51, 15, 5, 51, 46, 24, 51, 26, 55, 3, 22, 58, 4, 50, 24, 51, 26, 55, 3, 50, 8, 50, 9, 24, 51, 26, 55, 3, 50, 43, 50, 50, 24, 51, 26, 55, 3, 50, 51, 29, 30, 24, 51, 26, 55, 3, 51, 29, 24, 30, 24, 51, 26, 55, 3, 51, 29, 33, 30, 24, 51, 26, 55, 3, 51, 29, 33, 38, 24, 51, 26, 55, 3, 51, 29, 56, 30, 24, 51, 26, 55, 15, 10, 55, 3, 53, 24, 51, 26, 55, 15, 10, 55, 3, 55, 24, 51, 26, 55, 15, 23, 55, 8, 9, 24, 51, 26, 55, 15, 26, 55, 15, 55, 24, 51, 26, 55, 15, 28, 55, 29, 5, 24, 51, 26, 55, 15, 28, 55, 29, 30, 24, 51, 26, 55, 15, 32, 58, 13, 55, 24, 51, 26, 55, 15, 49, 8, 50, 9, 24, 51, 26, 55, 15, 49, 50, 8, 50, 24, 51, 26, 55, 15, 49, 50, 43, 50, 24, 51, 26, 55, 15, 49, 51, 29, 30, 24, 51, 45, 51, 15, 5, 51, 5, 51, 24, 51, 45, 51, 15, 5, 51, 46, 50, 24, 51, 26, 55, 3, 51, 29, 33, 38, 55, 24, 51, 26, 55, 15, 10, 55, 3, 53, 2, 24, 51, 26, 55, 15, 10, 55, 3, 53, 11, 24, 51, 26, 55, 15, 26, 55, 15, 55, 27, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 24, 51, 26, 55, 15, 28, 55, 29, 5, 55, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 24, 51, 26, 55, 15, 49, 8, 51, 29, 30, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 24, 51, 26, 55, 15, 49, 50, 8, 50, 9, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 24, 51, 26, 55, 15, 49, 50, 43, 50, 50, 24, 51, 26, 55, 15, 49, 50, 51, 29, 30, 24, 51, 26, 55, 3, 51, 29, 33, 38, 55, 3, 24, 51, 26, 55, 15, 26, 55, 15, 55, 27, 55, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 21, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 50, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 55, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 24, 51, 26, 55, 15, 49, 8, 51, 29, 30, 9, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 50, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 50, 24, 51, 26, 55, 15, 49, 50, 8, 50, 50, 50, 24, 51, 26, 55, 3, 51, 29, 33, 38, 55, 3, 50, 24, 51, 26, 55, 15, 28, 55, 29, 5, 21, 13, 55, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 24, 51, 26, 55, 15, 49, 50, 8, 50, 8, 50, 9, 24, 51, 26, 55, 15, 49, 50, 8, 50, 43, 50, 50, 24, 51, 26, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 24, 51, 26, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 24, 51, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 9, 24, 51, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 24, 51, 26, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 26, 45, 26, 55, 45, 37, 45, 51, 45, 57, 26, 55, 3, 26, 55, 15, 45, 51, 15, 26, 55, 3, 8, 26, 55, 3, 22, 26, 55, 3, 43, 26, 55, 3, 50, 26, 55, 3, 51, 26, 55, 3, 58, 26, 55, 15, 10, 26, 55, 15, 19, 26, 55, 15, 23, 26, 55, 15, 26, 26, 55, 15, 28, 26, 55, 15, 31, 26, 55, 15, 32, 26, 55, 15, 49, 26, 55, 15, 50, 26, 55, 15, 51, 26, 55, 15, 53, 26, 55, 15, 54, 26, 55, 15, 55, 26, 55, 15, 56, 45, 51, 15, 5, 26, 55, 3, 8, 50, 26, 55, 3, 22, 58, 26, 55, 3, 43, 50, 26, 55, 3, 50, 8, 26, 55, 3, 50, 14, 26, 55, 3, 50, 43, 26, 55, 3, 50, 50, 26, 55, 3, 50, 58, 26, 55, 3, 51, 29, 26, 55, 15, 10, 55, 26, 55, 15, 19, 55, 26, 55, 15, 23, 55, 26, 55, 15, 26, 55, 26, 55, 15, 28, 55, 26, 55, 15, 31, 8, 26, 55, 15, 32, 58, 26, 55, 15, 49, 8, 26, 55, 15, 49, 50, 26, 55, 15, 50, 10, 26, 55, 15, 50, 55, 26, 55, 15, 51, 4, 26, 55, 15, 51, 52, 26, 55, 15, 53, 4, 26, 55, 15, 55, 55, 45, 51, 15, 5, 51, 26, 55, 3, 8, 50, 9, 26, 55, 3, 22, 58, 4, 26, 55, 3, 43, 50, 50, 26, 55, 3, 50, 8, 50, 26, 55, 3, 50, 14, 50, 26, 55, 3, 50, 43, 50, 26, 55, 3, 51, 29, 24, 26, 55, 3, 51, 29, 30, 26, 55, 3, 51, 29, 33, 26, 55, 3, 51, 29, 56, 26, 55, 15, 10, 55, 3, 26, 55, 15, 19, 55, 50, 26, 55, 15, 23, 55, 8, 26, 55, 15, 23, 55, 55, 26, 55, 15, 26, 55, 15, 26, 55, 15, 28, 55, 29, 26, 55, 15, 31, 8, 55, 26, 55, 15, 32, 58, 13, 26, 55, 15, 49, 8, 50, 26, 55, 15, 49, 50, 8, 26, 55, 15, 49, 50, 43, 26, 55, 15, 49, 50, 50, 26, 55, 15, 50, 10, 11, 26, 55, 15, 51, 4, 51, 26, 55, 15, 51, 4, 55, 26, 55, 15, 53, 4, 51, 45, 51, 15, 5, 51, 46, 26, 55, 3, 22, 58, 4, 50, 26, 55, 3, 50, 8, 50, 9, 26, 55, 3, 50, 43, 50, 50, 26, 55, 3, 50, 51, 29, 30, 26, 55, 3, 51, 29, 24, 30, 26, 55, 3, 51, 29, 33, 30, 26, 55, 3, 51, 29, 33, 38, 26, 55, 3, 51, 29, 56, 30, 26, 55, 15, 10, 55, 3, 53, 26, 55, 15, 10, 55, 3, 55, 26, 55, 15, 23, 55, 8, 9, 26, 55, 15, 26, 55, 15, 55, 26, 55, 15, 28, 55, 29, 5, 26, 55, 15, 28, 55, 29, 30, 26, 55, 15, 32, 58, 13, 55, 26, 55, 15, 49, 8, 50, 9, 26, 55, 15, 49, 50, 8, 50, 26, 55, 15, 49, 50, 43, 50, 26, 55, 15, 49, 51, 29, 30, 45, 51, 15, 5, 51, 5, 51, 45, 51, 15, 5, 51, 46, 50, 26, 55, 3, 51, 29, 33, 38, 55, 26, 55, 15, 10, 55, 3, 53, 2, 26, 55, 15, 10, 55, 3, 53, 11, 26, 55, 15, 26, 55, 15, 55, 27, 26, 55, 15, 28, 55, 29, 5, 21, 26, 55, 15, 28, 55, 29, 5, 50, 26, 55, 15, 28, 55, 29, 5, 55, 26, 55, 15, 31, 8, 55, 3, 50, 26, 55, 15, 49, 8, 51, 29, 30, 26, 55, 15, 49, 50, 8, 50, 8, 26, 55, 15, 49, 50, 8, 50, 9, 26, 55, 15, 49, 50, 8, 50, 43, 26, 55, 15, 49, 50, 8, 50, 50, 26, 55, 15, 49, 50, 43, 50, 50, 26, 55, 15, 49, 50, 51, 29, 30, 26, 55, 3, 51, 29, 33, 38, 55, 3, 26, 55, 15, 26, 55, 15, 55, 27, 55, 26, 55, 15, 28, 55, 29, 5, 21, 13, 26, 55, 15, 28, 55, 29, 5, 50, 8, 26, 55, 15, 28, 55, 29, 5, 50, 21, 26, 55, 15, 28, 55, 29, 5, 50, 50, 26, 55, 15, 28, 55, 29, 5, 50, 55, 26, 55, 15, 31, 8, 55, 3, 50, 9, 26, 55, 15, 49, 8, 51, 29, 30, 9, 26, 55, 15, 49, 50, 8, 50, 8, 50, 26, 55, 15, 49, 50, 8, 50, 43, 50, 26, 55, 15, 49, 50, 8, 50, 50, 50, 26, 55, 3, 51, 29, 33, 38, 55, 3, 50, 26, 55, 15, 28, 55, 29, 5, 21, 13, 55, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 26, 55, 15, 49, 50, 8, 50, 8, 50, 9, 26, 55, 15, 49, 50, 8, 50, 43, 50, 50, 26, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 26, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 26, 55, 15, 28, 55, 29, 5, 50, 8, 21, 9, 26, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 26, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 55, 55, 3, 55, 3, 8, 55, 3, 22, 55, 3, 37, 55, 3, 43, 55, 3, 50, 55, 3, 51, 55, 3, 53, 55, 3, 57, 55, 3, 58, 55, 3, 8, 50, 55, 3, 22, 58, 55, 3, 43, 8, 55, 3, 43, 50, 55, 3, 50, 8, 55, 3, 50, 14, 55, 3, 50, 43, 55, 3, 50, 50, 55, 3, 50, 58, 55, 3, 51, 4, 55, 3, 51, 29, 55, 3, 53, 4, 55, 3, 8, 50, 9, 55, 3, 22, 58, 4, 55, 3, 43, 8, 50, 55, 3, 43, 50, 8, 55, 3, 43, 50, 43, 55, 3, 43, 50, 50, 55, 3, 50, 8, 50, 55, 3, 50, 14, 50, 55, 3, 50, 43, 50, 55, 3, 51, 4, 51, 55, 3, 51, 29, 24, 55, 3, 51, 29, 30, 55, 3, 51, 29, 33, 55, 3, 51, 29, 56, 55, 3, 53, 4, 51, 55, 3, 22, 58, 4, 50, 55, 3, 43, 8, 50, 9, 55, 3, 43, 50, 8, 50, 55, 3, 43, 50, 43, 50, 55, 3, 43, 51, 29, 30, 55, 3, 50, 8, 50, 9, 55, 3, 50, 43, 50, 50, 55, 3, 50, 51, 29, 30, 55, 3, 51, 29, 24, 30, 55, 3, 51, 29, 33, 30, 55, 3, 51, 29, 33, 38, 55, 3, 51, 29, 56, 30, 55, 3, 43, 8, 51, 29, 30, 55, 3, 43, 50, 8, 50, 8, 55, 3, 43, 50, 8, 50, 9, 55, 3, 43, 50, 8, 50, 43, 55, 3, 43, 50, 8, 50, 50, 55, 3, 43, 50, 43, 50, 50, 55, 3, 43, 50, 51, 29, 30, 55, 3, 51, 29, 33, 38, 51, 55, 3, 51, 29, 33, 38, 55, 55, 3, 51, 29, 33, 38, 56, 55, 3, 43, 8, 51, 29, 30, 9, 55, 3, 43, 50, 8, 50, 8, 50, 55, 3, 43, 50, 8, 50, 43, 50, 55, 3, 43, 50, 8, 50, 50, 50, 55, 3, 51, 29, 33, 38, 51, 4, 55, 3, 51, 29, 33, 38, 55, 3, 55, 3, 43, 50, 8, 50, 8, 50, 9, 55, 3, 43, 50, 8, 50, 43, 50, 50, 55, 3, 51, 29, 33, 38, 51, 4, 55, 55, 3, 51, 29, 33, 38, 55, 3, 50, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 3, 3, 8, 3, 22, 3, 37, 3, 43, 3, 50, 3, 51, 3, 53, 3, 57, 3, 58, 3, 8, 50, 3, 22, 58, 3, 43, 8, 3, 43, 50, 3, 50, 8, 3, 50, 14, 3, 50, 43, 3, 50, 50, 3, 50, 58, 3, 51, 4, 3, 51, 29, 3, 53, 4, 3, 8, 50, 9, 3, 22, 58, 4, 3, 43, 8, 50, 3, 43, 50, 8, 3, 43, 50, 43, 3, 43, 50, 50, 3, 50, 8, 50, 3, 50, 14, 50, 3, 50, 43, 50, 3, 51, 4, 51, 3, 51, 29, 24, 3, 51, 29, 30, 3, 51, 29, 33, 3, 51, 29, 56, 3, 53, 4, 51, 3, 22, 58, 4, 50, 3, 43, 8, 50, 9, 3, 43, 50, 8, 50, 3, 43, 50, 43, 50, 3, 43, 51, 29, 30, 3, 50, 8, 50, 9, 3, 50, 43, 50, 50, 3, 50, 51, 29, 30, 3, 51, 29, 24, 30, 3, 51, 29, 33, 30, 3, 51, 29, 33, 38, 3, 51, 29, 56, 30, 3, 43, 8, 51, 29, 30, 3, 43, 50, 8, 50, 8, 3, 43, 50, 8, 50, 9, 3, 43, 50, 8, 50, 43, 3, 43, 50, 8, 50, 50, 3, 43, 50, 43, 50, 50, 3, 43, 50, 51, 29, 30, 3, 51, 29, 33, 38, 51, 3, 51, 29, 33, 38, 55, 3, 51, 29, 33, 38, 56, 3, 43, 8, 51, 29, 30, 9, 3, 43, 50, 8, 50, 8, 50, 3, 43, 50, 8, 50, 43, 50, 3, 43, 50, 8, 50, 50, 50, 3, 51, 29, 33, 38, 51, 4, 3, 51, 29, 33, 38, 55, 3, 3, 43, 50, 8, 50, 8, 50, 9, 3, 43, 50, 8, 50, 43, 50, 50, 3, 51, 29, 33, 38, 51, 4, 55, 3, 51, 29, 33, 38, 55, 3, 50, 3, 51, 29, 33, 38, 55, 3, 50, 12, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 5, 5, 37, 5, 51, 5, 57, 5, 51, 46, 5, 51, 46, 8, 5, 51, 46, 43, 5, 51, 46, 50, 5, 51, 46, 51, 5, 51, 46, 53, 5, 51, 46, 58, 5, 51, 46, 8, 8, 5, 51, 46, 8, 22, 5, 51, 46, 8, 43, 5, 51, 46, 8, 50, 5, 51, 46, 8, 58, 5, 51, 46, 43, 8, 5, 51, 46, 43, 50, 5, 51, 46, 50, 50, 5, 51, 46, 51, 4, 5, 51, 46, 51, 29, 5, 51, 46, 53, 4, 5, 51, 46, 8, 8, 50, 5, 51, 46, 8, 22, 58, 5, 51, 46, 8, 43, 50, 5, 51, 46, 8, 50, 9, 5, 51, 46, 8, 50, 14, 5, 51, 46, 43, 8, 50, 5, 51, 46, 43, 50, 8, 5, 51, 46, 43, 50, 43, 5, 51, 46, 43, 50, 50, 5, 51, 46, 51, 4, 51, 5, 51, 46, 51, 29, 24, 5, 51, 46, 51, 29, 30, 5, 51, 46, 51, 29, 33, 5, 51, 46, 51, 29, 56, 5, 51, 46, 53, 4, 51, 5, 51, 46, 8, 8, 50, 9, 5, 51, 46, 8, 22, 58, 4, 5, 51, 46, 8, 43, 50, 50, 5, 51, 46, 8, 50, 14, 50, 5, 51, 46, 8, 51, 29, 30, 5, 51, 46, 43, 8, 50, 9, 5, 51, 46, 43, 50, 8, 50, 5, 51, 46, 43, 50, 43, 50, 5, 51, 46, 43, 51, 29, 30, 5, 51, 46, 51, 29, 24, 30, 5, 51, 46, 51, 29, 33, 30, 5, 51, 46, 51, 29, 33, 38, 5, 51, 46, 51, 29, 56, 30, 5, 51, 46, 8, 22, 58, 4, 50, 5, 51, 46, 43, 8, 51, 29, 30, 5, 51, 46, 43, 50, 8, 50, 8, 5, 51, 46, 43, 50, 8, 50, 9, 5, 51, 46, 43, 50, 8, 50, 43, 5, 51, 46, 43, 50, 8, 50, 50, 5, 51, 46, 43, 50, 43, 50, 50, 5, 51, 46, 43, 50, 51, 29, 30, 5, 51, 46, 51, 29, 33, 38, 51, 5, 51, 46, 51, 29, 33, 38, 55, 5, 51, 46, 51, 29, 33, 38, 56, 5, 51, 46, 43, 8, 51, 29, 30, 9, 5, 51, 46, 43, 50, 8, 50, 8, 50, 5, 51, 46, 43, 50, 8, 50, 43, 50, 5, 51, 46, 43, 50, 8, 50, 50, 50, 5, 51, 46, 51, 29, 33, 38, 51, 4, 5, 51, 46, 51, 29, 33, 38, 55, 3, 5, 51, 46, 43, 50, 8, 50, 8, 50, 9, 5, 51, 46, 43, 50, 8, 50, 43, 50, 50, 5, 51, 46, 51, 29, 33, 38, 51, 4, 55, 5, 51, 46, 51, 29, 33, 38, 55, 3, 50, 5, 51, 46, 51, 29, 33, 38, 55, 3, 50, 12, 5, 51, 46, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 37, 43, 50, 51, 53, 57, 8, 50, 43, 8, 43, 50, 50, 8, 50, 43, 50, 50, 51, 4, 51, 29, 53, 4, 8, 50, 9, 43, 8, 50, 43, 50, 50, 50, 8, 50, 50, 43, 50, 50, 50, 50, 51, 4, 51, 51, 29, 24, 51, 29, 30, 51, 29, 33, 51, 29, 56, 53, 4, 51, 43, 8, 50, 9, 43, 51, 29, 30, 50, 8, 50, 9, 50, 43, 50, 50, 51, 29, 24, 30, 51, 29, 33, 30, 51, 29, 33, 38, 51, 29, 56, 30, 43, 8, 51, 29, 30, 51, 29, 33, 38, 51, 51, 29, 33, 38, 55, 51, 29, 33, 38, 56, 43, 8, 51, 29, 30, 9, 51, 29, 33, 38, 51, 4, 51, 29, 33, 38, 55, 3, 51, 29, 33, 38, 51, 4, 55, 51, 29, 33, 38, 55, 3, 8, 51, 29, 33, 38, 55, 3, 22, 51, 29, 33, 38, 55, 3, 43, 51, 29, 33, 38, 55, 3, 50, 51, 29, 33, 38, 55, 3, 58, 51, 29, 33, 38, 55, 3, 8, 50, 51, 29, 33, 38, 55, 3, 22, 58, 51, 29, 33, 38, 55, 3, 43, 50, 51, 29, 33, 38, 55, 3, 50, 8, 51, 29, 33, 38, 55, 3, 50, 12, 51, 29, 33, 38, 55, 3, 50, 14, 51, 29, 33, 38, 55, 3, 50, 43, 51, 29, 33, 38, 55, 3, 50, 50, 51, 29, 33, 38, 55, 3, 50, 58, 51, 29, 33, 38, 55, 3, 8, 50, 9, 51, 29, 33, 38, 55, 3, 22, 58, 4, 51, 29, 33, 38, 55, 3, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 8, 50, 51, 29, 33, 38, 55, 3, 50, 14, 50, 51, 29, 33, 38, 55, 3, 50, 43, 50, 51, 29, 33, 38, 55, 3, 51, 29, 30, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 10, 10, 8, 10, 11, 10, 37, 10, 43, 10, 50, 10, 51, 10, 53, 10, 57, 10, 58, 10, 8, 8, 10, 8, 22, 10, 8, 43, 10, 8, 50, 10, 8, 58, 10, 43, 8, 10, 43, 50, 10, 51, 4, 10, 51, 29, 10, 53, 4, 10, 8, 8, 50, 10, 8, 22, 58, 10, 8, 43, 50, 10, 8, 50, 9, 10, 8, 50, 14, 10, 43, 8, 50, 10, 43, 50, 8, 10, 43, 50, 43, 10, 43, 50, 50, 10, 51, 4, 51, 10, 51, 29, 24, 10, 51, 29, 30, 10, 51, 29, 33, 10, 51, 29, 56, 10, 53, 4, 51, 10, 8, 8, 50, 9, 10, 8, 22, 58, 4, 10, 8, 43, 50, 50, 10, 8, 50, 14, 50, 10, 8, 51, 29, 30, 10, 43, 8, 50, 9, 10, 43, 50, 8, 50, 10, 43, 50, 43, 50, 10, 43, 51, 29, 30, 10, 51, 29, 24, 30, 10, 51, 29, 33, 30, 10, 51, 29, 33, 38, 10, 51, 29, 56, 30, 10, 8, 22, 58, 4, 50, 10, 43, 8, 51, 29, 30, 10, 43, 50, 8, 50, 8, 10, 43, 50, 8, 50, 9, 10, 43, 50, 8, 50, 43, 10, 43, 50, 8, 50, 50, 10, 43, 50, 43, 50, 50, 10, 43, 50, 51, 29, 30, 10, 51, 29, 33, 38, 51, 10, 51, 29, 33, 38, 55, 10, 51, 29, 33, 38, 56, 10, 43, 8, 51, 29, 30, 9, 10, 43, 50, 8, 50, 8, 50, 10, 43, 50, 8, 50, 43, 50, 10, 43, 50, 8, 50, 50, 50, 10, 51, 29, 33, 38, 51, 4, 10, 51, 29, 33, 38, 55, 3, 10, 43, 50, 8, 50, 8, 50, 9, 10, 43, 50, 8, 50, 43, 50, 50, 10, 51, 29, 33, 38, 51, 4, 55, 10, 51, 29, 33, 38, 55, 3, 50, 10, 51, 29, 33, 38, 55, 3, 50, 12, 10, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 10, 19, 23, 26, 28, 31, 32, 37, 49, 50, 51, 53, 54, 55, 56, 57, 10, 55, 19, 55, 23, 55, 26, 55, 28, 55, 31, 8, 32, 58, 49, 8, 49, 50, 49, 51, 50, 10, 50, 55, 51, 4, 51, 52, 53, 4, 55, 55, 10, 55, 3, 19, 55, 8, 19, 55, 43, 19, 55, 50, 19, 55, 58, 23, 55, 8, 23, 55, 55, 26, 55, 3, 26, 55, 15, 28, 55, 29, 31, 8, 55, 32, 58, 13, 49, 8, 50, 49, 50, 8, 49, 50, 43, 49, 50, 50, 49, 51, 29, 50, 10, 11, 50, 10, 50, 51, 4, 51, 51, 4, 55, 53, 4, 51, 10, 55, 3, 53, 10, 55, 3, 55, 19, 55, 8, 8, 19, 55, 8, 22, 19, 55, 8, 43, 19, 55, 8, 50, 19, 55, 8, 58, 19, 55, 43, 50, 23, 55, 8, 9, 26, 55, 3, 50, 26, 55, 15, 55, 28, 55, 29, 5, 28, 55, 29, 30, 32, 58, 13, 55, 49, 8, 50, 9, 49, 50, 8, 50, 49, 50, 43, 50, 49, 51, 29, 24, 49, 51, 29, 30, 49, 51, 29, 33, 49, 51, 29, 56, 10, 55, 3, 53, 2, 10, 55, 3, 53, 11, 19, 55, 8, 8, 50, 19, 55, 8, 22, 58, 19, 55, 8, 43, 50, 19, 55, 8, 50, 9, 19, 55, 8, 50, 14, 19, 55, 43, 50, 50, 19, 55, 51, 29, 30, 26, 55, 15, 55, 27, 28, 55, 29, 5, 21, 28, 55, 29, 5, 50, 28, 55, 29, 5, 55, 31, 8, 55, 3, 50, 49, 8, 51, 29, 30, 49, 50, 8, 50, 8, 49, 50, 8, 50, 9, 49, 50, 8, 50, 43, 49, 50, 8, 50, 50, 49, 50, 43, 50, 50, 49, 50, 51, 29, 30, 49, 51, 29, 24, 30, 49, 51, 29, 33, 30, 49, 51, 29, 33, 38, 49, 51, 29, 56, 30, 19, 55, 8, 8, 50, 9, 19, 55, 8, 22, 58, 4, 19, 55, 8, 43, 50, 50, 19, 55, 8, 50, 14, 50, 19, 55, 8, 51, 29, 30, 26, 55, 15, 55, 27, 55, 28, 55, 29, 5, 21, 13, 28, 55, 29, 5, 50, 8, 28, 55, 29, 5, 50, 21, 28, 55, 29, 5, 50, 50, 28, 55, 29, 5, 50, 55, 31, 8, 55, 3, 50, 9, 49, 8, 51, 29, 30, 9, 49, 50, 8, 50, 8, 50, 49, 50, 8, 50, 43, 50, 49, 50, 8, 50, 50, 50, 49, 51, 29, 33, 38, 55, 19, 55, 8, 22, 58, 4, 50, 28, 55, 29, 5, 21, 13, 55, 28, 55, 29, 5, 50, 8, 21, 31, 8, 55, 3, 50, 9, 13, 49, 50, 8, 50, 8, 50, 9, 49, 50, 8, 50, 43, 50, 50, 49, 51, 29, 33, 38, 55, 3, 10, 55, 3, 53, 2, 55, 3, 53, 28, 55, 29, 5, 50, 8, 21, 9, 31, 8, 55, 3, 50, 9, 13, 55, 49, 51, 29, 33, 38, 55, 3, 50, 49, 51, 29, 33, 38, 55, 3, 50, 12, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 5, 5, 21, 5, 37, 5, 50, 5, 51, 5, 53, 5, 55, 5, 57, 5, 21, 13, 5, 50, 8, 5, 50, 21, 5, 50, 50, 5, 50, 55, 5, 51, 4, 5, 53, 4, 5, 21, 13, 10, 5, 21, 13, 19, 5, 21, 13, 23, 5, 21, 13, 26, 5, 21, 13, 28, 5, 21, 13, 31, 5, 21, 13, 32, 5, 21, 13, 49, 5, 21, 13, 50, 5, 21, 13, 51, 5, 21, 13, 53, 5, 21, 13, 54, 5, 21, 13, 55, 5, 21, 13, 56, 5, 50, 8, 21, 5, 51, 4, 51, 5, 53, 4, 51, 5, 21, 13, 10, 55, 5, 21, 13, 19, 55, 5, 21, 13, 23, 55, 5, 21, 13, 26, 55, 5, 21, 13, 28, 55, 5, 21, 13, 31, 8, 5, 21, 13, 32, 58, 5, 21, 13, 49, 8, 5, 21, 13, 49, 50, 5, 21, 13, 49, 51, 5, 21, 13, 50, 10, 5, 21, 13, 50, 55, 5, 21, 13, 51, 4, 5, 21, 13, 51, 52, 5, 21, 13, 55, 55, 5, 50, 8, 21, 9, 5, 21, 13, 10, 55, 3, 5, 21, 13, 19, 55, 8, 5, 21, 13, 19, 55, 43, 5, 21, 13, 19, 55, 50, 5, 21, 13, 19, 55, 58, 5, 21, 13, 23, 55, 8, 5, 21, 13, 23, 55, 55, 5, 21, 13, 26, 55, 3, 5, 21, 13, 26, 55, 15, 5, 21, 13, 28, 55, 29, 5, 21, 13, 31, 8, 55, 5, 21, 13, 32, 58, 13, 5, 21, 13, 49, 8, 50, 5, 21, 13, 49, 50, 8, 5, 21, 13, 49, 50, 43, 5, 21, 13, 49, 50, 50, 5, 21, 13, 49, 51, 29, 5, 21, 13, 50, 10, 11, 5, 21, 13, 50, 10, 50, 5, 21, 13, 51, 4, 55, 5, 21, 13, 10, 55, 3, 53, 5, 21, 13, 10, 55, 3, 55, 5, 21, 13, 19, 55, 8, 8, 5, 21, 13, 19, 55, 8, 22, 5, 21, 13, 19, 55, 8, 43, 5, 21, 13, 19, 55, 8, 50, 5, 21, 13, 19, 55, 8, 58, 5, 21, 13, 19, 55, 43, 50, 5, 21, 13, 23, 55, 8, 9, 5, 21, 13, 26, 55, 3, 50, 5, 21, 13, 26, 55, 15, 55, 5, 21, 13, 28, 55, 29, 30, 5, 21, 13, 32, 58, 13, 55, 5, 21, 13, 49, 8, 50, 9, 5, 21, 13, 49, 50, 8, 50, 5, 21, 13, 49, 50, 43, 50, 5, 21, 13, 49, 51, 29, 24, 5, 21, 13, 49, 51, 29, 30, 5, 21, 13, 49, 51, 29, 33, 5, 21, 13, 49, 51, 29, 56, 5, 21, 13, 10, 55, 3, 53, 2, 5, 21, 13, 10, 55, 3, 53, 11, 5, 21, 13, 19, 55, 8, 8, 50, 5, 21, 13, 19, 55, 8, 22, 58, 5, 21, 13, 19, 55, 8, 43, 50, 5, 21, 13, 19, 55, 8, 50, 9, 5, 21, 13, 19, 55, 8, 50, 14, 5, 21, 13, 19, 55, 43, 50, 50, 5, 21, 13, 19, 55, 51, 29, 30, 5, 21, 13, 26, 55, 15, 55, 27, 5, 21, 13, 31, 8, 55, 3, 50, 5, 21, 13, 49, 8, 51, 29, 30, 5, 21, 13, 49, 50, 8, 50, 8, 5, 21, 13, 49, 50, 8, 50, 9, 5, 21, 13, 49, 50, 8, 50, 43, 5, 21, 13, 49, 50, 8, 50, 50, 5, 21, 13, 49, 50, 43, 50, 50, 5, 21, 13, 49, 50, 51, 29, 30, 5, 21, 13, 49, 51, 29, 24, 30, 5, 21, 13, 49, 51, 29, 33, 30, 5, 21, 13, 49, 51, 29, 33, 38, 5, 21, 13, 49, 51, 29, 56, 30, 5, 21, 13, 19, 55, 8, 8, 50, 9, 5, 21, 13, 19, 55, 8, 22, 58, 4, 5, 21, 13, 19, 55, 8, 43, 50, 50, 5, 21, 13, 19, 55, 8, 50, 14, 50, 5, 21, 13, 19, 55, 8, 51, 29, 30, 5, 21, 13, 26, 55, 15, 55, 27, 55, 5, 21, 13, 31, 8, 55, 3, 50, 9, 5, 21, 13, 49, 8, 51, 29, 30, 9, 5, 21, 13, 49, 50, 8, 50, 8, 50, 5, 21, 13, 49, 50, 8, 50, 43, 50, 5, 21, 13, 49, 50, 8, 50, 50, 50, 5, 21, 13, 49, 51, 29, 33, 38, 55, 5, 21, 13, 19, 55, 8, 22, 58, 4, 50, 5, 21, 13, 28, 55, 29, 5, 21, 13, 55, 5, 21, 13, 31, 8, 55, 3, 50, 9, 13, 5, 21, 13, 49, 50, 8, 50, 8, 50, 9, 5, 21, 13, 49, 50, 8, 50, 43, 50, 50, 5, 21, 13, 49, 51, 29, 33, 38, 55, 3, 5, 21, 13, 10, 55, 3, 53, 2, 55, 3, 53, 5, 21, 13, 31, 8, 55, 3, 50, 9, 13, 55, 5, 21, 13, 49, 51, 29, 33, 38, 55, 3, 50, 5, 21, 13, 49, 51, 29, 33, 38, 55, 3, 50, 12, 5, 21, 13, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 21, 37, 50, 51, 53, 55, 57, 50, 8, 50, 21, 50, 50, 50, 55, 51, 4, 53, 4, 50, 8, 21, 51, 4, 51, 53, 4, 51, 50, 8, 21, 9, 8, 21, 37, 50, 51, 53, 55, 57, 8, 21, 8, 50, 8, 55, 51, 4, 53, 4, 8, 21, 9, 8, 50, 21, 51, 4, 51, 53, 4, 51, 2, 2, 37, 2, 51, 2, 55, 2, 56, 2, 57, 2, 51, 4, 2, 55, 3, 2, 51, 4, 55, 2, 55, 3, 49, 2, 55, 3, 51, 2, 55, 3, 53, 2, 55, 3, 54, 2, 55, 3, 55, 2, 55, 3, 49, 8, 2, 55, 3, 49, 50, 2, 55, 3, 49, 51, 2, 55, 3, 49, 53, 2, 55, 3, 51, 52, 2, 55, 3, 49, 8, 50, 2, 55, 3, 49, 50, 8, 2, 55, 3, 49, 50, 43, 2, 55, 3, 49, 50, 50, 2, 55, 3, 49, 51, 4, 2, 55, 3, 49, 51, 29, 2, 55, 3, 49, 53, 4, 2, 55, 3, 49, 8, 50, 9, 2, 55, 3, 49, 50, 8, 50, 2, 55, 3, 49, 50, 43, 50, 2, 55, 3, 49, 51, 4, 51, 2, 55, 3, 49, 51, 29, 24, 2, 55, 3, 49, 51, 29, 30, 2, 55, 3, 49, 51, 29, 33, 2, 55, 3, 49, 51, 29, 56, 2, 55, 3, 49, 53, 4, 51, 2, 55, 3, 49, 8, 51, 29, 30, 2, 55, 3, 49, 50, 8, 50, 8, 2, 55, 3, 49, 50, 8, 50, 9, 2, 55, 3, 49, 50, 8, 50, 43, 2, 55, 3, 49, 50, 8, 50, 50, 2, 55, 3, 49, 50, 43, 50, 50, 2, 55, 3, 49, 50, 51, 29, 30, 2, 55, 3, 49, 51, 29, 24, 30, 2, 55, 3, 49, 51, 29, 33, 30, 2, 55, 3, 49, 51, 29, 33, 38, 2, 55, 3, 49, 51, 29, 56, 30, 2, 55, 3, 49, 8, 51, 29, 30, 9, 2, 55, 3, 49, 50, 8, 50, 8, 50, 2, 55, 3, 49, 50, 8, 50, 43, 50, 2, 55, 3, 49, 50, 8, 50, 50, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 2, 55, 3, 49, 50, 8, 50, 8, 50, 9, 2, 55, 3, 49, 50, 8, 50, 43, 50, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 8, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 43, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 58, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 8, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 58, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 43, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 8, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 12, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 14, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 43, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 58, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 8, 50, 9, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 43, 50, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 14, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 51, 29, 30, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 2, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 37, 51, 55, 56, 57, 51, 4, 55, 3, 51, 4, 55, 55, 3, 49, 55, 3, 51, 55, 3, 53, 55, 3, 54, 55, 3, 55, 55, 3, 49, 8, 55, 3, 49, 50, 55, 3, 49, 51, 55, 3, 49, 53, 55, 3, 51, 52, 55, 3, 49, 8, 50, 55, 3, 49, 50, 8, 55, 3, 49, 50, 43, 55, 3, 49, 50, 50, 55, 3, 49, 51, 4, 55, 3, 49, 51, 29, 55, 3, 49, 53, 4, 55, 3, 49, 8, 50, 9, 55, 3, 49, 50, 8, 50, 55, 3, 49, 50, 43, 50, 55, 3, 49, 51, 4, 51, 55, 3, 49, 51, 29, 24, 55, 3, 49, 51, 29, 30, 55, 3, 49, 51, 29, 33, 55, 3, 49, 51, 29, 56, 55, 3, 49, 53, 4, 51, 55, 3, 49, 8, 51, 29, 30, 55, 3, 49, 50, 8, 50, 8, 55, 3, 49, 50, 8, 50, 9, 55, 3, 49, 50, 8, 50, 43, 55, 3, 49, 50, 8, 50, 50, 55, 3, 49, 50, 43, 50, 50, 55, 3, 49, 50, 51, 29, 30, 55, 3, 49, 51, 29, 24, 30, 55, 3, 49, 51, 29, 33, 30, 55, 3, 49, 51, 29, 33, 38, 55, 3, 49, 51, 29, 56, 30, 55, 3, 49, 8, 51, 29, 30, 9, 55, 3, 49, 50, 8, 50, 8, 50, 55, 3, 49, 50, 8, 50, 43, 50, 55, 3, 49, 50, 8, 50, 50, 50, 55, 3, 49, 51, 29, 33, 38, 55, 55, 3, 49, 50, 8, 50, 8, 50, 9, 55, 3, 49, 50, 8, 50, 43, 50, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 55, 3, 49, 51, 29, 33, 38, 55, 3, 8, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 55, 3, 49, 51, 29, 33, 38, 55, 3, 43, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 58, 55, 3, 49, 51, 29, 33, 38, 55, 3, 8, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 58, 55, 3, 49, 51, 29, 33, 38, 55, 3, 43, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 8, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 12, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 14, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 43, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 58, 55, 3, 49, 51, 29, 33, 38, 55, 3, 8, 50, 9, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 55, 3, 49, 51, 29, 33, 38, 55, 3, 43, 50, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 14, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 51, 29, 30, 55, 3, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 55, 3, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 37, 49, 51, 53, 54, 55, 56, 57, 49, 8, 49, 50, 49, 51, 49, 53, 51, 4, 51, 52, 49, 8, 50, 49, 50, 8, 49, 50, 43, 49, 50, 50, 49, 51, 4, 49, 51, 29, 49, 53, 4, 51, 4, 55, 49, 8, 50, 9, 49, 50, 8, 50, 49, 50, 43, 50, 49, 51, 4, 51, 49, 51, 29, 24, 49, 51, 29, 30, 49, 51, 29, 33, 49, 51, 29, 56, 49, 53, 4, 51, 49, 8, 51, 29, 30, 49, 50, 8, 50, 8, 49, 50, 8, 50, 9, 49, 50, 8, 50, 43, 49, 50, 8, 50, 50, 49, 50, 43, 50, 50, 49, 50, 51, 29, 30, 49, 51, 29, 24, 30, 49, 51, 29, 33, 30, 49, 51, 29, 33, 38, 49, 51, 29, 56, 30, 49, 8, 51, 29, 30, 9, 49, 50, 8, 50, 8, 50, 49, 50, 8, 50, 43, 50, 49, 50, 8, 50, 50, 50, 49, 51, 29, 33, 38, 55, 49, 50, 8, 50, 8, 50, 9, 49, 50, 8, 50, 43, 50, 50, 49, 51, 29, 33, 38, 55, 3, 49, 51, 29, 33, 38, 55, 3, 8, 49, 51, 29, 33, 38, 55, 3, 22, 49, 51, 29, 33, 38, 55, 3, 43, 49, 51, 29, 33, 38, 55, 3, 50, 49, 51, 29, 33, 38, 55, 3, 58, 49, 51, 29, 33, 38, 55, 3, 8, 50, 49, 51, 29, 33, 38, 55, 3, 22, 58, 49, 51, 29, 33, 38, 55, 3, 43, 50, 49, 51, 29, 33, 38, 55, 3, 50, 8, 49, 51, 29, 33, 38, 55, 3, 50, 12, 49, 51, 29, 33, 38, 55, 3, 50, 14, 49, 51, 29, 33, 38, 55, 3, 50, 43, 49, 51, 29, 33, 38, 55, 3, 50, 50, 49, 51, 29, 33, 38, 55, 3, 50, 58, 49, 51, 29, 33, 38, 55, 3, 8, 50, 9, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 49, 51, 29, 33, 38, 55, 3, 43, 50, 50, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 49, 51, 29, 33, 38, 55, 3, 50, 14, 50, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 49, 51, 29, 33, 38, 55, 3, 51, 29, 30, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 49, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 37, 49, 51, 53, 54, 57, 49, 8, 49, 50, 49, 51, 49, 53, 51, 52, 49, 8, 50, 49, 50, 8, 49, 50, 43, 49, 50, 50, 49, 51, 4, 49, 51, 29, 49, 53, 4, 49, 8, 50, 9, 49, 50, 8, 50, 49, 50, 43, 50, 49, 51, 4, 51, 49, 51, 29, 24, 49, 51, 29, 30, 49, 51, 29, 33, 49, 51, 29, 56, 49, 53, 4, 51, 49, 8, 51, 29, 30, 49, 50, 8, 50, 8, 49, 50, 8, 50, 9, 49, 50, 8, 50, 43, 49, 50, 8, 50, 50, 49, 50, 43, 50, 50, 49, 50, 51, 29, 30, 49, 51, 29, 24, 30, 49, 51, 29, 33, 30, 49, 51, 29, 33, 38, 49, 51, 29, 56, 30, 49, 8, 51, 29, 30, 9, 49, 50, 8, 50, 8, 50, 49, 50, 8, 50, 43, 50, 49, 50, 8, 50, 50, 50, 49, 51, 29, 33, 38, 51, 49, 51, 29, 33, 38, 55, 49, 51, 29, 33, 38, 56, 49, 50, 8, 50, 8, 50, 9, 49, 50, 8, 50, 43, 50, 50, 49, 51, 29, 33, 38, 51, 4, 49, 51, 29, 33, 38, 55, 3, 49, 51, 29, 33, 38, 51, 4, 55, 49, 51, 29, 33, 38, 55, 3, 8, 49, 51, 29, 33, 38, 55, 3, 22, 49, 51, 29, 33, 38, 55, 3, 43, 49, 51, 29, 33, 38, 55, 3, 50, 49, 51, 29, 33, 38, 55, 3, 58, 49, 51, 29, 33, 38, 55, 3, 8, 50, 49, 51, 29, 33, 38, 55, 3, 22, 58, 49, 51, 29, 33, 38, 55, 3, 43, 50, 49, 51, 29, 33, 38, 55, 3, 50, 8, 49, 51, 29, 33, 38, 55, 3, 50, 12, 49, 51, 29, 33, 38, 55, 3, 50, 14, 49, 51, 29, 33, 38, 55, 3, 50, 43, 49, 51, 29, 33, 38, 55, 3, 50, 50, 49, 51, 29, 33, 38, 55, 3, 50, 58, 49, 51, 29, 33, 38, 55, 3, 8, 50, 9, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 49, 51, 29, 33, 38, 55, 3, 43, 50, 50, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 49, 51, 29, 33, 38, 55, 3, 50, 14, 50, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 49, 51, 29, 33, 38, 55, 3, 51, 29, 30, 49, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 49, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 49, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 49, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 22, 28, 35, 36, 37, 39, 41, 42, 51, 55, 57, 22, 55, 28, 55, 35, 51, 35, 55, 35, 56, 36, 55, 41, 55, 42, 55, 51, 55, 55, 6, 55, 15, 55, 17, 55, 18, 22, 55, 51, 28, 55, 29, 35, 51, 4, 55, 6, 55, 55, 15, 10, 55, 15, 19, 55, 15, 23, 55, 15, 26, 55, 15, 28, 55, 15, 31, 55, 15, 32, 55, 15, 49, 55, 15, 50, 55, 15, 51, 55, 15, 53, 55, 15, 54, 55, 15, 55, 55, 17, 16, 55, 17, 40, 55, 17, 55, 55, 18, 55, 28, 55, 29, 5, 35, 51, 4, 55, 55, 6, 55, 7, 55, 15, 10, 55, 55, 15, 19, 55, 55, 15, 23, 55, 55, 15, 26, 55, 55, 15, 28, 55, 55, 15, 31, 8, 55, 15, 32, 58, 55, 15, 49, 8, 55, 15, 49, 50, 55, 15, 49, 51, 55, 15, 50, 10, 55, 15, 51, 4, 55, 15, 51, 52, 55, 15, 53, 4, 55, 15, 55, 55, 55, 17, 16, 40, 55, 17, 16, 51, 55, 17, 16, 55, 55, 17, 16, 56, 55, 17, 40, 55, 28, 55, 29, 5, 21, 28, 55, 29, 5, 50, 28, 55, 29, 5, 55, 41, 55, 6, 55, 7, 55, 6, 55, 7, 18, 55, 15, 10, 55, 3, 55, 15, 19, 55, 8, 55, 15, 19, 55, 43, 55, 15, 19, 55, 50, 55, 15, 19, 55, 58, 55, 15, 23, 55, 8, 55, 15, 23, 55, 55, 55, 15, 26, 55, 3, 55, 15, 26, 55, 15, 55, 15, 28, 55, 29, 55, 15, 31, 8, 55, 55, 15, 32, 58, 13, 55, 15, 49, 8, 50, 55, 15, 49, 50, 8, 55, 15, 49, 50, 43, 55, 15, 49, 50, 50, 55, 15, 49, 51, 29, 55, 15, 50, 10, 11, 55, 15, 50, 10, 50, 55, 15, 51, 4, 51, 55, 15, 53, 4, 51, 55, 17, 16, 40, 55, 55, 17, 16, 51, 8, 55, 17, 16, 55, 4, 55, 17, 16, 55, 47, 55, 17, 16, 56, 4, 28, 55, 29, 5, 21, 13, 28, 55, 29, 5, 50, 8, 28, 55, 29, 5, 50, 21, 28, 55, 29, 5, 50, 50, 28, 55, 29, 5, 50, 55, 55, 6, 55, 7, 18, 55, 55, 15, 10, 55, 3, 53, 55, 15, 10, 55, 3, 55, 55, 15, 19, 55, 8, 8, 55, 15, 19, 55, 8, 22, 55, 15, 19, 55, 8, 43, 55, 15, 19, 55, 8, 50, 55, 15, 19, 55, 8, 58, 55, 15, 19, 55, 43, 50, 55, 15, 23, 55, 8, 9, 55, 15, 26, 55, 3, 50, 55, 15, 26, 55, 15, 55, 55, 15, 28, 55, 29, 5, 55, 15, 28, 55, 29, 30, 55, 15, 32, 58, 13, 55, 55, 15, 49, 8, 50, 9, 55, 15, 49, 50, 8, 50, 55, 15, 49, 50, 43, 50, 55, 15, 49, 51, 29, 24, 55, 15, 49, 51, 29, 30, 55, 15, 49, 51, 29, 33, 55, 15, 49, 51, 29, 56, 55, 17, 16, 40, 55, 4, 55, 17, 16, 51, 8, 55, 55, 17, 16, 55, 4, 55, 55, 17, 16, 56, 4, 56, 55, 17, 55, 6, 55, 7, 28, 55, 29, 5, 21, 13, 30, 28, 55, 29, 5, 21, 13, 39, 28, 55, 29, 5, 50, 8, 21, 55, 6, 55, 7, 6, 55, 7, 55, 15, 10, 55, 3, 53, 2, 55, 15, 10, 55, 3, 53, 11, 55, 15, 19, 55, 8, 8, 50, 55, 15, 19, 55, 8, 22, 58, 55, 15, 19, 55, 8, 43, 50, 55, 15, 19, 55, 8, 50, 9, 55, 15, 19, 55, 8, 50, 14, 55, 15, 19, 55, 43, 50, 50, 55, 15, 19, 55, 51, 29, 30, 55, 15, 26, 55, 15, 55, 27, 55, 15, 28, 55, 29, 5, 21, 55, 15, 31, 8, 55, 3, 50, 55, 15, 49, 8, 51, 29, 30, 55, 15, 49, 50, 8, 50, 8, 55, 15, 49, 50, 8, 50, 9, 55, 15, 49, 50, 8, 50, 43, 55, 15, 49, 50, 8, 50, 50, 55, 15, 49, 50, 43, 50, 50, 55, 15, 49, 50, 51, 29, 30, 55, 15, 49, 51, 29, 24, 30, 55, 15, 49, 51, 29, 33, 30, 55, 15, 49, 51, 29, 33, 38, 55, 15, 49, 51, 29, 56, 30, 55, 17, 16, 40, 55, 4, 55, 55, 17, 16, 51, 8, 55, 9, 55, 17, 40, 55, 6, 55, 7, 28, 55, 29, 5, 21, 13, 39, 2, 28, 55, 29, 5, 50, 8, 21, 9, 55, 15, 19, 55, 8, 8, 50, 9, 55, 15, 19, 55, 8, 22, 58, 4, 55, 15, 19, 55, 8, 43, 50, 50, 55, 15, 19, 55, 8, 50, 14, 50, 55, 15, 19, 55, 8, 51, 29, 30, 55, 15, 26, 55, 15, 55, 27, 55, 55, 15, 28, 55, 29, 5, 21, 13, 55, 15, 31, 8, 55, 3, 50, 9, 55, 15, 49, 8, 51, 29, 30, 9, 55, 15, 49, 50, 8, 50, 8, 50, 55, 15, 49, 50, 8, 50, 43, 50, 55, 15, 49, 50, 8, 50, 50, 50, 55, 15, 49, 51, 29, 33, 38, 55, 55, 17, 16, 55, 47, 51, 29, 30, 28, 55, 29, 5, 21, 13, 5, 21, 13, 28, 55, 29, 5, 21, 13, 39, 2, 39, 55, 15, 19, 55, 8, 22, 58, 4, 50, 55, 15, 28, 55, 29, 5, 21, 13, 55, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 15, 49, 50, 8, 50, 8, 50, 9, 55, 15, 49, 50, 8, 50, 43, 50, 50, 55, 15, 49, 51, 29, 33, 38, 55, 3, 55, 17, 16, 55, 4, 55, 6, 55, 7, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 2, 2, 22, 2, 28, 2, 35, 2, 36, 2, 37, 2, 39, 2, 41, 2, 42, 2, 51, 2, 55, 2, 57, 2, 22, 55, 2, 28, 55, 2, 35, 51, 2, 35, 55, 2, 35, 56, 2, 36, 55, 2, 41, 55, 2, 42, 55, 2, 51, 55, 2, 55, 6, 2, 55, 15, 2, 55, 17, 2, 55, 18, 2, 22, 55, 51, 2, 28, 55, 29, 2, 35, 51, 4, 2, 55, 6, 55, 2, 55, 15, 10, 2, 55, 15, 19, 2, 55, 15, 23, 2, 55, 15, 26, 2, 55, 15, 28, 2, 55, 15, 31, 2, 55, 15, 32, 2, 55, 15, 49, 2, 55, 15, 50, 2, 55, 15, 51, 2, 55, 15, 53, 2, 55, 15, 54, 2, 55, 15, 55, 2, 55, 17, 16, 2, 55, 17, 40, 2, 55, 17, 55, 2, 55, 18, 55, 2, 28, 55, 29, 5, 2, 35, 51, 4, 55, 2, 55, 6, 55, 7, 2, 55, 15, 10, 55, 2, 55, 15, 19, 55, 2, 55, 15, 23, 55, 2, 55, 15, 26, 55, 2, 55, 15, 28, 55, 2, 55, 15, 31, 8, 2, 55, 15, 32, 58, 2, 55, 15, 49, 8, 2, 55, 15, 49, 50, 2, 55, 15, 49, 51, 2, 55, 15, 50, 10, 2, 55, 15, 51, 4, 2, 55, 15, 51, 52, 2, 55, 15, 53, 4, 2, 55, 15, 55, 55, 2, 55, 17, 16, 40, 2, 55, 17, 16, 51, 2, 55, 17, 16, 55, 2, 55, 17, 16, 56, 2, 55, 17, 40, 55, 2, 28, 55, 29, 5, 21, 2, 28, 55, 29, 5, 50, 2, 28, 55, 29, 5, 55, 2, 41, 55, 6, 55, 7, 2, 55, 6, 55, 7, 18, 2, 55, 15, 10, 55, 3, 2, 55, 15, 19, 55, 8, 2, 55, 15, 19, 55, 43, 2, 55, 15, 19, 55, 50, 2, 55, 15, 19, 55, 58, 2, 55, 15, 23, 55, 8, 2, 55, 15, 23, 55, 55, 2, 55, 15, 26, 55, 3, 2, 55, 15, 26, 55, 15, 2, 55, 15, 28, 55, 29, 2, 55, 15, 31, 8, 55, 2, 55, 15, 32, 58, 13, 2, 55, 15, 49, 8, 50, 2, 55, 15, 49, 50, 8, 2, 55, 15, 49, 50, 43, 2, 55, 15, 49, 50, 50, 2, 55, 15, 49, 51, 29, 2, 55, 15, 50, 10, 11, 2, 55, 15, 50, 10, 50, 2, 55, 15, 51, 4, 51, 2, 55, 15, 53, 4, 51, 2, 55, 17, 16, 40, 55, 2, 55, 17, 16, 51, 8, 2, 55, 17, 16, 55, 4, 2, 55, 17, 16, 55, 47, 2, 55, 17, 16, 56, 4, 2, 28, 55, 29, 5, 21, 13, 2, 28, 55, 29, 5, 50, 8, 2, 28, 55, 29, 5, 50, 21, 2, 28, 55, 29, 5, 50, 50, 2, 28, 55, 29, 5, 50, 55, 2, 55, 6, 55, 7, 18, 55, 2, 55, 15, 10, 55, 3, 53, 2, 55, 15, 10, 55, 3, 55, 2, 55, 15, 19, 55, 8, 8, 2, 55, 15, 19, 55, 8, 22, 2, 55, 15, 19, 55, 8, 43, 2, 55, 15, 19, 55, 8, 50, 2, 55, 15, 19, 55, 8, 58, 2, 55, 15, 19, 55, 43, 50, 2, 55, 15, 23, 55, 8, 9, 2, 55, 15, 26, 55, 3, 50, 2, 55, 15, 26, 55, 15, 55, 2, 55, 15, 28, 55, 29, 5, 2, 55, 15, 28, 55, 29, 30, 2, 55, 15, 32, 58, 13, 55, 2, 55, 15, 49, 8, 50, 9, 2, 55, 15, 49, 50, 8, 50, 2, 55, 15, 49, 50, 43, 50, 2, 55, 15, 49, 51, 29, 24, 2, 55, 15, 49, 51, 29, 30, 2, 55, 15, 49, 51, 29, 33, 2, 55, 15, 49, 51, 29, 56, 2, 55, 17, 16, 40, 55, 4, 2, 55, 17, 16, 51, 8, 55, 2, 55, 17, 16, 55, 4, 55, 2, 55, 17, 16, 56, 4, 56, 2, 55, 17, 55, 6, 55, 7, 2, 28, 55, 29, 5, 21, 13, 30, 2, 28, 55, 29, 5, 21, 13, 39, 2, 28, 55, 29, 5, 50, 8, 21, 2, 55, 6, 55, 7, 6, 55, 7, 2, 55, 15, 10, 55, 3, 53, 2, 2, 55, 15, 10, 55, 3, 53, 11, 2, 55, 15, 19, 55, 8, 8, 50, 2, 55, 15, 19, 55, 8, 22, 58, 2, 55, 15, 19, 55, 8, 43, 50, 2, 55, 15, 19, 55, 8, 50, 9, 2, 55, 15, 19, 55, 8, 50, 14, 2, 55, 15, 19, 55, 43, 50, 50, 2, 55, 15, 19, 55, 51, 29, 30, 2, 55, 15, 26, 55, 15, 55, 27, 2, 55, 15, 28, 55, 29, 5, 21, 2, 55, 15, 31, 8, 55, 3, 50, 2, 55, 15, 49, 8, 51, 29, 30, 2, 55, 15, 49, 50, 8, 50, 8, 2, 55, 15, 49, 50, 8, 50, 9, 2, 55, 15, 49, 50, 8, 50, 43, 2, 55, 15, 49, 50, 8, 50, 50, 2, 55, 15, 49, 50, 43, 50, 50, 2, 55, 15, 49, 50, 51, 29, 30, 2, 55, 15, 49, 51, 29, 24, 30, 2, 55, 15, 49, 51, 29, 33, 30, 2, 55, 15, 49, 51, 29, 33, 38, 2, 55, 15, 49, 51, 29, 56, 30, 2, 55, 17, 16, 40, 55, 4, 55, 2, 55, 17, 16, 51, 8, 55, 9, 2, 55, 17, 40, 55, 6, 55, 7, 2, 28, 55, 29, 5, 21, 13, 39, 2, 2, 28, 55, 29, 5, 50, 8, 21, 9, 2, 55, 15, 19, 55, 8, 8, 50, 9, 2, 55, 15, 19, 55, 8, 22, 58, 4, 2, 55, 15, 19, 55, 8, 43, 50, 50, 2, 55, 15, 19, 55, 8, 50, 14, 50, 2, 55, 15, 19, 55, 8, 51, 29, 30, 2, 55, 15, 26, 55, 15, 55, 27, 55, 2, 55, 15, 28, 55, 29, 5, 21, 13, 2, 55, 15, 31, 8, 55, 3, 50, 9, 2, 55, 15, 49, 8, 51, 29, 30, 9, 2, 55, 15, 49, 50, 8, 50, 8, 50, 2, 55, 15, 49, 50, 8, 50, 43, 50, 2, 55, 15, 49, 50, 8, 50, 50, 50, 2, 55, 15, 49, 51, 29, 33, 38, 55, 2, 55, 17, 16, 55, 47, 51, 29, 30, 2, 28, 55, 29, 5, 21, 13, 5, 21, 13, 2, 28, 55, 29, 5, 21, 13, 39, 2, 39, 2, 55, 15, 19, 55, 8, 22, 58, 4, 50, 2, 55, 15, 28, 55, 29, 5, 21, 13, 55, 2, 55, 15, 31, 8, 55, 3, 50, 9, 13, 2, 55, 15, 49, 50, 8, 50, 8, 50, 9, 2, 55, 15, 49, 50, 8, 50, 43, 50, 50, 2, 55, 15, 49, 51, 29, 33, 38, 55, 3, 2, 55, 17, 16, 55, 4, 55, 6, 55, 7, 2, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 2, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 2, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 2, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 2, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 2, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 22, 28, 35, 36, 37, 39, 41, 42, 51, 55, 57, 22, 55, 28, 55, 35, 51, 35, 55, 35, 56, 36, 55, 39, 2, 41, 55, 42, 55, 51, 55, 55, 6, 55, 15, 55, 17, 55, 18, 22, 55, 51, 28, 55, 29, 35, 51, 4, 39, 2, 39, 55, 6, 55, 55, 15, 10, 55, 15, 19, 55, 15, 23, 55, 15, 26, 55, 15, 28, 55, 15, 31, 55, 15, 32, 55, 15, 49, 55, 15, 50, 55, 15, 51, 55, 15, 53, 55, 15, 54, 55, 15, 55, 55, 17, 16, 55, 17, 40, 55, 17, 55, 55, 18, 55, 28, 55, 29, 5, 35, 51, 4, 55, 55, 6, 55, 7, 55, 15, 10, 55, 55, 15, 19, 55, 55, 15, 23, 55, 55, 15, 26, 55, 55, 15, 28, 55, 55, 15, 31, 8, 55, 15, 32, 58, 55, 15, 49, 8, 55, 15, 49, 50, 55, 15, 49, 51, 55, 15, 50, 10, 55, 15, 51, 4, 55, 15, 51, 52, 55, 15, 53, 4, 55, 15, 55, 55, 55, 17, 16, 40, 55, 17, 16, 51, 55, 17, 16, 55, 55, 17, 16, 56, 55, 17, 40, 55, 28, 55, 29, 5, 21, 28, 55, 29, 5, 50, 28, 55, 29, 5, 55, 41, 55, 6, 55, 7, 55, 6, 55, 7, 18, 55, 15, 10, 55, 3, 55, 15, 19, 55, 8, 55, 15, 19, 55, 43, 55, 15, 19, 55, 50, 55, 15, 19, 55, 58, 55, 15, 23, 55, 8, 55, 15, 23, 55, 55, 55, 15, 26, 55, 3, 55, 15, 26, 55, 15, 55, 15, 28, 55, 29, 55, 15, 31, 8, 55, 55, 15, 32, 58, 13, 55, 15, 49, 8, 50, 55, 15, 49, 50, 8, 55, 15, 49, 50, 43, 55, 15, 49, 50, 50, 55, 15, 49, 51, 29, 55, 15, 50, 10, 11, 55, 15, 50, 10, 50, 55, 15, 51, 4, 51, 55, 15, 53, 4, 51, 55, 17, 16, 40, 55, 55, 17, 16, 51, 8, 55, 17, 16, 55, 4, 55, 17, 16, 55, 47, 55, 17, 16, 56, 4, 28, 55, 29, 5, 21, 13, 28, 55, 29, 5, 50, 8, 28, 55, 29, 5, 50, 21, 28, 55, 29, 5, 50, 50, 28, 55, 29, 5, 50, 55, 55, 6, 55, 7, 18, 55, 55, 15, 10, 55, 3, 53, 55, 15, 10, 55, 3, 55, 55, 15, 19, 55, 8, 8, 55, 15, 19, 55, 8, 22, 55, 15, 19, 55, 8, 43, 55, 15, 19, 55, 8, 50, 55, 15, 19, 55, 8, 58, 55, 15, 19, 55, 43, 50, 55, 15, 23, 55, 8, 9, 55, 15, 26, 55, 3, 50, 55, 15, 26, 55, 15, 55, 55, 15, 28, 55, 29, 5, 55, 15, 28, 55, 29, 30, 55, 15, 32, 58, 13, 55, 55, 15, 49, 8, 50, 9, 55, 15, 49, 50, 8, 50, 55, 15, 49, 50, 43, 50, 55, 15, 49, 51, 29, 24, 55, 15, 49, 51, 29, 30, 55, 15, 49, 51, 29, 33, 55, 15, 49, 51, 29, 56, 55, 17, 16, 40, 55, 4, 55, 17, 16, 51, 8, 55, 55, 17, 16, 55, 4, 55, 55, 17, 16, 56, 4, 56, 55, 17, 55, 6, 55, 7, 28, 55, 29, 5, 21, 13, 30, 28, 55, 29, 5, 21, 13, 39, 28, 55, 29, 5, 50, 8, 21, 55, 6, 55, 7, 6, 55, 7, 55, 15, 10, 55, 3, 53, 2, 55, 15, 10, 55, 3, 53, 11, 55, 15, 19, 55, 8, 8, 50, 55, 15, 19, 55, 8, 22, 58, 55, 15, 19, 55, 8, 43, 50, 55, 15, 19, 55, 8, 50, 9, 55, 15, 19, 55, 8, 50, 14, 55, 15, 19, 55, 43, 50, 50, 55, 15, 19, 55, 51, 29, 30, 55, 15, 26, 55, 15, 55, 27, 55, 15, 28, 55, 29, 5, 21, 55, 15, 31, 8, 55, 3, 50, 55, 15, 49, 8, 51, 29, 30, 55, 15, 49, 50, 8, 50, 8, 55, 15, 49, 50, 8, 50, 9, 55, 15, 49, 50, 8, 50, 43, 55, 15, 49, 50, 8, 50, 50, 55, 15, 49, 50, 43, 50, 50, 55, 15, 49, 50, 51, 29, 30, 55, 15, 49, 51, 29, 24, 30, 55, 15, 49, 51, 29, 33, 30, 55, 15, 49, 51, 29, 33, 38, 55, 15, 49, 51, 29, 56, 30, 55, 17, 16, 40, 55, 4, 55, 55, 17, 16, 51, 8, 55, 9, 55, 17, 40, 55, 6, 55, 7, 28, 55, 29, 5, 50, 8, 21, 9, 55, 15, 19, 55, 8, 8, 50, 9, 55, 15, 19, 55, 8, 22, 58, 4, 55, 15, 19, 55, 8, 43, 50, 50, 55, 15, 19, 55, 8, 50, 14, 50, 55, 15, 19, 55, 8, 51, 29, 30, 55, 15, 26, 55, 15, 55, 27, 55, 55, 15, 28, 55, 29, 5, 21, 13, 55, 15, 31, 8, 55, 3, 50, 9, 55, 15, 49, 8, 51, 29, 30, 9, 55, 15, 49, 50, 8, 50, 8, 50, 55, 15, 49, 50, 8, 50, 43, 50, 55, 15, 49, 50, 8, 50, 50, 50, 55, 15, 49, 51, 29, 33, 38, 55, 55, 17, 16, 55, 47, 51, 29, 30, 28, 55, 29, 5, 21, 13, 5, 21, 13, 55, 15, 19, 55, 8, 22, 58, 4, 50, 55, 15, 28, 55, 29, 5, 21, 13, 55, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 15, 49, 50, 8, 50, 8, 50, 9, 55, 15, 49, 50, 8, 50, 43, 50, 50, 55, 15, 49, 51, 29, 33, 38, 55, 3, 55, 17, 16, 55, 4, 55, 6, 55, 7, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 8, 37, 8, 51, 8, 55, 8, 56, 8, 57, 8, 51, 4, 8, 55, 9, 8, 55, 55, 8, 51, 4, 55, 37, 51, 55, 57, 5, 5, 21, 5, 37, 5, 50, 5, 51, 5, 53, 5, 55, 5, 57, 5, 21, 13, 5, 50, 8, 5, 50, 21, 5, 50, 50, 5, 50, 55, 5, 51, 4, 5, 53, 4, 5, 21, 13, 22, 5, 21, 13, 28, 5, 21, 13, 35, 5, 21, 13, 36, 5, 21, 13, 39, 5, 21, 13, 41, 5, 21, 13, 42, 5, 21, 13, 51, 5, 21, 13, 55, 5, 50, 8, 21, 5, 51, 4, 51, 5, 53, 4, 51, 5, 21, 13, 22, 55, 5, 21, 13, 28, 55, 5, 21, 13, 35, 51, 5, 21, 13, 35, 55, 5, 21, 13, 35, 56, 5, 21, 13, 36, 55, 5, 21, 13, 39, 2, 5, 21, 13, 41, 55, 5, 21, 13, 42, 55, 5, 21, 13, 51, 55, 5, 21, 13, 55, 6, 5, 21, 13, 55, 15, 5, 21, 13, 55, 17, 5, 21, 13, 55, 18, 5, 50, 8, 21, 9, 5, 21, 13, 22, 55, 51, 5, 21, 13, 28, 55, 29, 5, 21, 13, 35, 51, 4, 5, 21, 13, 39, 2, 39, 5, 21, 13, 55, 6, 55, 5, 21, 13, 55, 15, 10, 5, 21, 13, 55, 15, 19, 5, 21, 13, 55, 15, 23, 5, 21, 13, 55, 15, 26, 5, 21, 13, 55, 15, 28, 5, 21, 13, 55, 15, 31, 5, 21, 13, 55, 15, 32, 5, 21, 13, 55, 15, 49, 5, 21, 13, 55, 15, 50, 5, 21, 13, 55, 15, 51, 5, 21, 13, 55, 15, 53, 5, 21, 13, 55, 15, 54, 5, 21, 13, 55, 15, 55, 5, 21, 13, 55, 17, 16, 5, 21, 13, 55, 17, 40, 5, 21, 13, 55, 17, 55, 5, 21, 13, 55, 18, 55, 5, 21, 13, 35, 51, 4, 55, 5, 21, 13, 55, 6, 55, 7, 5, 21, 13, 55, 15, 10, 55, 5, 21, 13, 55, 15, 19, 55, 5, 21, 13, 55, 15, 23, 55, 5, 21, 13, 55, 15, 26, 55, 5, 21, 13, 55, 15, 28, 55, 5, 21, 13, 55, 15, 31, 8, 5, 21, 13, 55, 15, 32, 58, 5, 21, 13, 55, 15, 49, 8, 5, 21, 13, 55, 15, 49, 50, 5, 21, 13, 55, 15, 49, 51, 5, 21, 13, 55, 15, 50, 10, 5, 21, 13, 55, 15, 51, 52, 5, 21, 13, 55, 15, 55, 55, 5, 21, 13, 55, 17, 16, 40, 5, 21, 13, 55, 17, 16, 51, 5, 21, 13, 55, 17, 16, 55, 5, 21, 13, 55, 17, 16, 56, 5, 21, 13, 55, 17, 40, 55, 5, 21, 13, 41, 55, 6, 55, 7, 5, 21, 13, 55, 6, 55, 7, 18, 5, 21, 13, 55, 15, 10, 55, 3, 5, 21, 13, 55, 15, 19, 55, 8, 5, 21, 13, 55, 15, 19, 55, 43, 5, 21, 13, 55, 15, 19, 55, 50, 5, 21, 13, 55, 15, 19, 55, 58, 5, 21, 13, 55, 15, 23, 55, 8, 5, 21, 13, 55, 15, 23, 55, 55, 5, 21, 13, 55, 15, 26, 55, 3, 5, 21, 13, 55, 15, 26, 55, 15, 5, 21, 13, 55, 15, 28, 55, 29, 5, 21, 13, 55, 15, 31, 8, 55, 5, 21, 13, 55, 15, 32, 58, 13, 5, 21, 13, 55, 15, 49, 8, 50, 5, 21, 13, 55, 15, 49, 50, 8, 5, 21, 13, 55, 15, 49, 50, 43, 5, 21, 13, 55, 15, 49, 50, 50, 5, 21, 13, 55, 15, 49, 51, 29, 5, 21, 13, 55, 15, 50, 10, 11, 5, 21, 13, 55, 15, 50, 10, 50, 5, 21, 13, 55, 17, 16, 40, 55, 5, 21, 13, 55, 17, 16, 51, 8, 5, 21, 13, 55, 17, 16, 55, 4, 5, 21, 13, 55, 17, 16, 55, 47, 5, 21, 13, 55, 17, 16, 56, 4, 5, 21, 13, 28, 55, 29, 5, 21, 13, 5, 21, 13, 55, 6, 55, 7, 18, 55, 5, 21, 13, 55, 15, 10, 55, 3, 53, 5, 21, 13, 55, 15, 10, 55, 3, 55, 5, 21, 13, 55, 15, 19, 55, 8, 8, 5, 21, 13, 55, 15, 19, 55, 8, 22, 5, 21, 13, 55, 15, 19, 55, 8, 43, 5, 21, 13, 55, 15, 19, 55, 8, 50, 5, 21, 13, 55, 15, 19, 55, 8, 58, 5, 21, 13, 55, 15, 19, 55, 43, 50, 5, 21, 13, 55, 15, 23, 55, 8, 9, 5, 21, 13, 55, 15, 26, 55, 3, 50, 5, 21, 13, 55, 15, 26, 55, 15, 55, 5, 21, 13, 55, 15, 28, 55, 29, 5, 5, 21, 13, 55, 15, 28, 55, 29, 30, 5, 21, 13, 55, 15, 32, 58, 13, 55, 5, 21, 13, 55, 15, 49, 8, 50, 9, 5, 21, 13, 55, 15, 49, 50, 8, 50, 5, 21, 13, 55, 15, 49, 50, 43, 50, 5, 21, 13, 55, 15, 49, 51, 29, 24, 5, 21, 13, 55, 15, 49, 51, 29, 30, 5, 21, 13, 55, 15, 49, 51, 29, 33, 5, 21, 13, 55, 15, 49, 51, 29, 56, 5, 21, 13, 55, 17, 16, 40, 55, 4, 5, 21, 13, 55, 17, 16, 51, 8, 55, 5, 21, 13, 55, 17, 16, 55, 4, 55, 5, 21, 13, 55, 17, 16, 56, 4, 56, 5, 21, 13, 55, 17, 55, 6, 55, 7, 5, 21, 13, 28, 55, 29, 5, 21, 13, 30, 5, 21, 13, 55, 6, 55, 7, 6, 55, 7, 5, 21, 13, 55, 15, 10, 55, 3, 53, 2, 5, 21, 13, 55, 15, 10, 55, 3, 53, 11, 5, 21, 13, 55, 15, 19, 55, 8, 8, 50, 5, 21, 13, 55, 15, 19, 55, 8, 22, 58, 5, 21, 13, 55, 15, 19, 55, 8, 43, 50, 5, 21, 13, 55, 15, 19, 55, 8, 50, 9, 5, 21, 13, 55, 15, 19, 55, 8, 50, 14, 5, 21, 13, 55, 15, 19, 55, 43, 50, 50, 5, 21, 13, 55, 15, 19, 55, 51, 29, 30, 5, 21, 13, 55, 15, 26, 55, 15, 55, 27, 5, 21, 13, 55, 15, 28, 55, 29, 5, 21, 5, 21, 13, 55, 15, 31, 8, 55, 3, 50, 5, 21, 13, 55, 15, 49, 8, 51, 29, 30, 5, 21, 13, 55, 15, 49, 50, 8, 50, 8, 5, 21, 13, 55, 15, 49, 50, 8, 50, 9, 5, 21, 13, 55, 15, 49, 50, 8, 50, 43, 5, 21, 13, 55, 15, 49, 50, 8, 50, 50, 5, 21, 13, 55, 15, 49, 50, 43, 50, 50, 5, 21, 13, 55, 15, 49, 50, 51, 29, 30, 5, 21, 13, 55, 15, 49, 51, 29, 24, 30, 5, 21, 13, 55, 15, 49, 51, 29, 33, 30, 5, 21, 13, 55, 15, 49, 51, 29, 33, 38, 5, 21, 13, 55, 15, 49, 51, 29, 56, 30, 5, 21, 13, 55, 17, 16, 40, 55, 4, 55, 5, 21, 13, 55, 17, 16, 51, 8, 55, 9, 5, 21, 13, 55, 17, 40, 55, 6, 55, 7, 5, 21, 13, 55, 15, 19, 55, 8, 8, 50, 9, 5, 21, 13, 55, 15, 19, 55, 8, 22, 58, 4, 5, 21, 13, 55, 15, 19, 55, 8, 43, 50, 50, 5, 21, 13, 55, 15, 19, 55, 8, 50, 14, 50, 5, 21, 13, 55, 15, 19, 55, 8, 51, 29, 30, 5, 21, 13, 55, 15, 26, 55, 15, 55, 27, 55, 5, 21, 13, 55, 15, 28, 55, 29, 5, 21, 13, 5, 21, 13, 55, 15, 31, 8, 55, 3, 50, 9, 5, 21, 13, 55, 15, 49, 8, 51, 29, 30, 9, 5, 21, 13, 55, 15, 49, 50, 8, 50, 8, 50, 5, 21, 13, 55, 15, 49, 50, 8, 50, 43, 50, 5, 21, 13, 55, 15, 49, 50, 8, 50, 50, 50, 5, 21, 13, 55, 15, 49, 51, 29, 33, 38, 55, 5, 21, 13, 55, 17, 16, 55, 47, 51, 29, 30, 5, 21, 13, 28, 55, 29, 5, 21, 13, 5, 21, 13, 5, 21, 13, 55, 15, 19, 55, 8, 22, 58, 4, 50, 5, 21, 13, 55, 15, 28, 55, 29, 5, 21, 13, 55, 5, 21, 13, 55, 15, 31, 8, 55, 3, 50, 9, 13, 5, 21, 13, 55, 15, 49, 50, 8, 50, 8, 50, 9, 5, 21, 13, 55, 15, 49, 50, 8, 50, 43, 50, 50, 5, 21, 13, 55, 15, 49, 51, 29, 33, 38, 55, 3, 5, 21, 13, 55, 17, 16, 55, 4, 55, 6, 55, 7, 5, 21, 13, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 5, 21, 13, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 5, 21, 13, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 5, 21, 13, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 5, 21, 13, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 5, 21, 13, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 55, 55, 17, 55, 17, 16, 55, 17, 16, 37, 55, 17, 16, 40, 55, 17, 16, 51, 55, 17, 16, 55, 55, 17, 16, 56, 55, 17, 16, 57, 55, 17, 16, 40, 55, 55, 17, 16, 51, 4, 55, 17, 16, 55, 4, 55, 17, 16, 55, 47, 55, 17, 16, 56, 4, 55, 17, 16, 40, 55, 4, 55, 17, 16, 51, 4, 55, 55, 17, 16, 55, 4, 55, 55, 17, 16, 55, 47, 51, 55, 17, 16, 56, 4, 56, 55, 17, 16, 40, 55, 4, 55, 55, 17, 16, 55, 4, 55, 6, 55, 17, 16, 55, 47, 51, 29, 55, 17, 16, 55, 4, 55, 6, 55, 55, 17, 16, 55, 47, 51, 29, 24, 55, 17, 16, 55, 47, 51, 29, 30, 55, 17, 16, 55, 47, 51, 29, 33, 55, 17, 16, 55, 47, 51, 29, 56, 55, 17, 16, 55, 4, 55, 6, 55, 7, 55, 17, 16, 55, 47, 51, 29, 24, 30, 55, 17, 16, 55, 47, 51, 29, 33, 30, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 17, 16, 55, 47, 51, 29, 56, 30, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 55, 17, 16, 55, 4, 55, 6, 55, 7, 6, 55, 7, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 8, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 22, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 51, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 53, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 58, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 8, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 22, 58, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 8, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 8, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 12, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 14, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 43, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 58, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 51, 4, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 53, 4, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 8, 50, 9, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 22, 58, 4, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 8, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 43, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 8, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 14, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 43, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 51, 4, 51, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 51, 29, 30, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 53, 4, 51, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 22, 58, 4, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 8, 50, 9, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 43, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 51, 29, 30, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 8, 50, 9, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 43, 50, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 51, 29, 30, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 8, 51, 29, 30, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 9, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 43, 50, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 51, 29, 30, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 8, 51, 29, 30, 9, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 50, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 55, 17, 16, 55, 47, 51, 29, 33, 38, 55, 3, 43, 50, 8, 50, 43, 50, 50, 6, 6, 37, 6, 51, 6, 55, 6, 56, 6, 57, 6, 51, 4, 6, 55, 7, 6, 51, 4, 55, 55, 55, 3, 55, 3, 8, 55, 3, 22, 55, 3, 37, 55, 3, 43, 55, 3, 50, 55, 3, 51, 55, 3, 53, 55, 3, 57, 55, 3, 58, 55, 3, 8, 50, 55, 3, 22, 58, 55, 3, 43, 8, 55, 3, 43, 50, 55, 3, 50, 8, 55, 3, 50, 14, 55, 3, 50, 43, 55, 3, 50, 50, 55, 3, 50, 58, 55, 3, 51, 4, 55, 3, 51, 29, 55, 3, 53, 4, 55, 3, 8, 50, 9, 55, 3, 22, 58, 4, 55, 3, 43, 8, 50, 55, 3, 43, 50, 8, 55, 3, 43, 50, 43, 55, 3, 43, 50, 50, 55, 3, 50, 8, 50, 55, 3, 50, 14, 50, 55, 3, 50, 43, 50, 55, 3, 51, 4, 51, 55, 3, 51, 29, 24, 55, 3, 51, 29, 30, 55, 3, 51, 29, 33, 55, 3, 51, 29, 56, 55, 3, 53, 4, 51, 55, 3, 22, 58, 4, 50, 55, 3, 43, 8, 50, 9, 55, 3, 43, 50, 8, 50, 55, 3, 43, 50, 43, 50, 55, 3, 43, 51, 29, 30, 55, 3, 50, 8, 50, 9, 55, 3, 50, 43, 50, 50, 55, 3, 50, 51, 29, 30, 55, 3, 51, 29, 24, 30, 55, 3, 51, 29, 33, 30, 55, 3, 51, 29, 33, 38, 55, 3, 51, 29, 56, 30, 55, 3, 43, 8, 51, 29, 30, 55, 3, 43, 50, 8, 50, 8, 55, 3, 43, 50, 8, 50, 9, 55, 3, 43, 50, 8, 50, 43, 55, 3, 43, 50, 8, 50, 50, 55, 3, 43, 50, 43, 50, 50, 55, 3, 43, 50, 51, 29, 30, 55, 3, 51, 29, 33, 38, 51, 55, 3, 51, 29, 33, 38, 55, 55, 3, 51, 29, 33, 38, 56, 55, 3, 43, 8, 51, 29, 30, 9, 55, 3, 43, 50, 8, 50, 8, 50, 55, 3, 43, 50, 8, 50, 43, 50, 55, 3, 43, 50, 8, 50, 50, 50, 55, 3, 51, 29, 33, 38, 51, 4, 55, 3, 51, 29, 33, 38, 55, 3, 55, 3, 43, 50, 8, 50, 8, 50, 9, 55, 3, 43, 50, 8, 50, 43, 50, 50, 55, 3, 51, 29, 33, 38, 51, 4, 55, 55, 3, 51, 29, 33, 38, 55, 3, 50, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 12, 12, 55, 12, 55, 3, 12, 55, 3, 8, 12, 55, 3, 22, 12, 55, 3, 37, 12, 55, 3, 43, 12, 55, 3, 50, 12, 55, 3, 51, 12, 55, 3, 53, 12, 55, 3, 57, 12, 55, 3, 58, 12, 55, 3, 8, 50, 12, 55, 3, 22, 58, 12, 55, 3, 43, 8, 12, 55, 3, 43, 50, 12, 55, 3, 50, 8, 12, 55, 3, 50, 14, 12, 55, 3, 50, 43, 12, 55, 3, 50, 50, 12, 55, 3, 50, 58, 12, 55, 3, 51, 4, 12, 55, 3, 51, 29, 12, 55, 3, 53, 4, 12, 55, 3, 8, 50, 9, 12, 55, 3, 22, 58, 4, 12, 55, 3, 43, 8, 50, 12, 55, 3, 43, 50, 8, 12, 55, 3, 43, 50, 43, 12, 55, 3, 43, 50, 50, 12, 55, 3, 50, 8, 50, 12, 55, 3, 50, 14, 50, 12, 55, 3, 50, 43, 50, 12, 55, 3, 51, 4, 51, 12, 55, 3, 51, 29, 24, 12, 55, 3, 51, 29, 30, 12, 55, 3, 51, 29, 33, 12, 55, 3, 51, 29, 56, 12, 55, 3, 53, 4, 51, 12, 55, 3, 22, 58, 4, 50, 12, 55, 3, 43, 8, 50, 9, 12, 55, 3, 43, 50, 8, 50, 12, 55, 3, 43, 50, 43, 50, 12, 55, 3, 43, 51, 29, 30, 12, 55, 3, 50, 8, 50, 9, 12, 55, 3, 50, 43, 50, 50, 12, 55, 3, 50, 51, 29, 30, 12, 55, 3, 51, 29, 24, 30, 12, 55, 3, 51, 29, 33, 30, 12, 55, 3, 51, 29, 33, 38, 12, 55, 3, 51, 29, 56, 30, 12, 55, 3, 43, 8, 51, 29, 30, 12, 55, 3, 43, 50, 8, 50, 8, 12, 55, 3, 43, 50, 8, 50, 9, 12, 55, 3, 43, 50, 8, 50, 43, 12, 55, 3, 43, 50, 8, 50, 50, 12, 55, 3, 43, 50, 43, 50, 50, 12, 55, 3, 43, 50, 51, 29, 30, 12, 55, 3, 51, 29, 33, 38, 51, 12, 55, 3, 51, 29, 33, 38, 55, 12, 55, 3, 51, 29, 33, 38, 56, 12, 55, 3, 43, 8, 51, 29, 30, 9, 12, 55, 3, 43, 50, 8, 50, 8, 50, 12, 55, 3, 43, 50, 8, 50, 43, 50, 12, 55, 3, 43, 50, 8, 50, 50, 50, 12, 55, 3, 51, 29, 33, 38, 51, 4, 12, 55, 3, 51, 29, 33, 38, 55, 3, 12, 55, 3, 43, 50, 8, 50, 8, 50, 9, 12, 55, 3, 43, 50, 8, 50, 43, 50, 50, 12, 55, 3, 51, 29, 33, 38, 51, 4, 55, 12, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 12, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 8, 8, 9, 8, 55, 8, 55, 3, 8, 55, 3, 8, 8, 55, 3, 22, 8, 55, 3, 37, 8, 55, 3, 43, 8, 55, 3, 50, 8, 55, 3, 51, 8, 55, 3, 53, 8, 55, 3, 57, 8, 55, 3, 58, 8, 55, 3, 8, 50, 8, 55, 3, 22, 58, 8, 55, 3, 43, 8, 8, 55, 3, 43, 50, 8, 55, 3, 50, 8, 8, 55, 3, 50, 12, 8, 55, 3, 50, 14, 8, 55, 3, 50, 43, 8, 55, 3, 50, 50, 8, 55, 3, 50, 58, 8, 55, 3, 51, 4, 8, 55, 3, 51, 29, 8, 55, 3, 53, 4, 8, 55, 3, 8, 50, 9, 8, 55, 3, 22, 58, 4, 8, 55, 3, 43, 8, 50, 8, 55, 3, 43, 50, 8, 8, 55, 3, 43, 50, 43, 8, 55, 3, 43, 50, 50, 8, 55, 3, 50, 8, 50, 8, 55, 3, 50, 14, 50, 8, 55, 3, 50, 43, 50, 8, 55, 3, 51, 4, 51, 8, 55, 3, 51, 29, 24, 8, 55, 3, 51, 29, 30, 8, 55, 3, 51, 29, 33, 8, 55, 3, 51, 29, 56, 8, 55, 3, 53, 4, 51, 8, 55, 3, 22, 58, 4, 50, 8, 55, 3, 43, 8, 50, 9, 8, 55, 3, 43, 50, 8, 50, 8, 55, 3, 43, 50, 43, 50, 8, 55, 3, 43, 51, 29, 30, 8, 55, 3, 50, 8, 50, 9, 8, 55, 3, 50, 43, 50, 50, 8, 55, 3, 50, 51, 29, 30, 8, 55, 3, 51, 29, 24, 30, 8, 55, 3, 51, 29, 33, 30, 8, 55, 3, 51, 29, 33, 38, 8, 55, 3, 51, 29, 56, 30, 8, 55, 3, 43, 8, 51, 29, 30, 8, 55, 3, 43, 50, 8, 50, 8, 8, 55, 3, 43, 50, 8, 50, 9, 8, 55, 3, 43, 50, 8, 50, 43, 8, 55, 3, 43, 50, 8, 50, 50, 8, 55, 3, 43, 50, 43, 50, 50, 8, 55, 3, 43, 50, 51, 29, 30, 8, 55, 3, 50, 12, 55, 3, 50, 8, 55, 3, 51, 29, 33, 38, 51, 8, 55, 3, 51, 29, 33, 38, 55, 8, 55, 3, 51, 29, 33, 38, 56, 8, 55, 3, 43, 8, 51, 29, 30, 9, 8, 55, 3, 43, 50, 8, 50, 8, 50, 8, 55, 3, 43, 50, 8, 50, 43, 50, 8, 55, 3, 43, 50, 8, 50, 50, 50, 8, 55, 3, 51, 29, 33, 38, 51, 4, 8, 55, 3, 51, 29, 33, 38, 55, 3, 8, 55, 3, 43, 50, 8, 50, 8, 50, 9, 8, 55, 3, 43, 50, 8, 50, 43, 50, 50, 8, 55, 3, 51, 29, 33, 38, 51, 4, 55, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 34, 48, 34, 37, 34, 51, 34, 55, 34, 57, 48, 51, 34, 51, 8, 34, 51, 8, 9, 34, 51, 8, 55, 48, 51, 8, 9, 34, 51, 8, 9, 22, 34, 51, 8, 9, 28, 34, 51, 8, 9, 30, 34, 51, 8, 9, 35, 34, 51, 8, 9, 36, 34, 51, 8, 9, 39, 34, 51, 8, 9, 41, 34, 51, 8, 9, 42, 34, 51, 8, 9, 51, 34, 51, 8, 9, 55, 34, 51, 8, 55, 3, 48, 51, 8, 9, 30, 34, 51, 8, 9, 22, 55, 34, 51, 8, 9, 28, 55, 34, 51, 8, 9, 35, 51, 34, 51, 8, 9, 35, 55, 34, 51, 8, 9, 35, 56, 34, 51, 8, 9, 36, 55, 34, 51, 8, 9, 39, 2, 34, 51, 8, 9, 41, 55, 34, 51, 8, 9, 42, 55, 34, 51, 8, 9, 51, 55, 34, 51, 8, 9, 55, 6, 34, 51, 8, 9, 55, 15, 34, 51, 8, 9, 55, 17, 34, 51, 8, 9, 55, 18, 34, 51, 8, 55, 3, 8, 34, 51, 8, 55, 3, 22, 34, 51, 8, 55, 3, 43, 34, 51, 8, 55, 3, 50, 34, 51, 8, 55, 3, 51, 34, 51, 8, 55, 3, 53, 34, 51, 8, 55, 3, 58, 34, 51, 8, 9, 22, 55, 51, 34, 51, 8, 9, 28, 55, 29, 34, 51, 8, 9, 35, 51, 4, 34, 51, 8, 9, 39, 2, 39, 34, 51, 8, 9, 55, 6, 55, 34, 51, 8, 9, 55, 15, 10, 34, 51, 8, 9, 55, 15, 19, 34, 51, 8, 9, 55, 15, 23, 34, 51, 8, 9, 55, 15, 26, 34, 51, 8, 9, 55, 15, 28, 34, 51, 8, 9, 55, 15, 31, 34, 51, 8, 9, 55, 15, 32, 34, 51, 8, 9, 55, 15, 49, 34, 51, 8, 9, 55, 15, 50, 34, 51, 8, 9, 55, 15, 51, 34, 51, 8, 9, 55, 15, 53, 34, 51, 8, 9, 55, 15, 54, 34, 51, 8, 9, 55, 15, 55, 34, 51, 8, 9, 55, 17, 16, 34, 51, 8, 9, 55, 17, 40, 34, 51, 8, 9, 55, 17, 55, 34, 51, 8, 9, 55, 18, 55, 34, 51, 8, 55, 3, 8, 50, 34, 51, 8, 55, 3, 22, 58, 34, 51, 8, 55, 3, 43, 8, 34, 51, 8, 55, 3, 43, 50, 34, 51, 8, 55, 3, 50, 8, 34, 51, 8, 55, 3, 50, 12, 34, 51, 8, 55, 3, 50, 14, 34, 51, 8, 55, 3, 50, 43, 34, 51, 8, 55, 3, 50, 50, 34, 51, 8, 55, 3, 50, 58, 34, 51, 8, 55, 3, 51, 4, 34, 51, 8, 55, 3, 51, 29, 34, 51, 8, 55, 3, 53, 4, 34, 51, 8, 9, 28, 55, 29, 5, 34, 51, 8, 9, 35, 51, 4, 55, 34, 51, 8, 9, 55, 6, 55, 7, 34, 51, 8, 9, 55, 15, 10, 55, 34, 51, 8, 9, 55, 15, 19, 55, 34, 51, 8, 9, 55, 15, 23, 55, 34, 51, 8, 9, 55, 15, 26, 55, 34, 51, 8, 9, 55, 15, 28, 55, 34, 51, 8, 9, 55, 15, 31, 8, 34, 51, 8, 9, 55, 15, 32, 58, 34, 51, 8, 9, 55, 15, 49, 50, 34, 51, 8, 9, 55, 15, 50, 10, 34, 51, 8, 9, 55, 15, 51, 52, 34, 51, 8, 9, 55, 15, 55, 55, 34, 51, 8, 9, 55, 17, 16, 40, 34, 51, 8, 9, 55, 17, 16, 51, 34, 51, 8, 9, 55, 17, 16, 55, 34, 51, 8, 9, 55, 17, 16, 56, 34, 51, 8, 9, 55, 17, 40, 55, 34, 51, 8, 55, 3, 8, 50, 9, 34, 51, 8, 55, 3, 22, 58, 4, 34, 51, 8, 55, 3, 43, 8, 50, 34, 51, 8, 55, 3, 43, 50, 8, 34, 51, 8, 55, 3, 43, 50, 43, 34, 51, 8, 55, 3, 43, 50, 50, 34, 51, 8, 55, 3, 50, 8, 50, 34, 51, 8, 55, 3, 50, 14, 50, 34, 51, 8, 55, 3, 50, 43, 50, 34, 51, 8, 55, 3, 51, 4, 51, 34, 51, 8, 55, 3, 51, 29, 24, 34, 51, 8, 55, 3, 51, 29, 30, 34, 51, 8, 55, 3, 51, 29, 33, 34, 51, 8, 55, 3, 51, 29, 56, 34, 51, 8, 55, 3, 53, 4, 51, 34, 51, 8, 9, 28, 55, 29, 5, 21, 34, 51, 8, 9, 28, 55, 29, 5, 50, 34, 51, 8, 9, 28, 55, 29, 5, 55, 34, 51, 8, 9, 41, 55, 6, 55, 7, 34, 51, 8, 9, 55, 6, 55, 7, 18, 34, 51, 8, 9, 55, 15, 10, 55, 3, 34, 51, 8, 9, 55, 15, 19, 55, 50, 34, 51, 8, 9, 55, 15, 23, 55, 8, 34, 51, 8, 9, 55, 15, 23, 55, 55, 34, 51, 8, 9, 55, 15, 26, 55, 15, 34, 51, 8, 9, 55, 15, 28, 55, 29, 34, 51, 8, 9, 55, 15, 31, 8, 55, 34, 51, 8, 9, 55, 15, 32, 58, 13, 34, 51, 8, 9, 55, 15, 49, 50, 50, 34, 51, 8, 9, 55, 15, 50, 10, 11, 34, 51, 8, 9, 55, 17, 16, 40, 55, 34, 51, 8, 9, 55, 17, 16, 51, 8, 34, 51, 8, 9, 55, 17, 16, 55, 4, 34, 51, 8, 9, 55, 17, 16, 55, 47, 34, 51, 8, 9, 55, 17, 16, 56, 4, 34, 51, 8, 55, 3, 22, 58, 4, 50, 34, 51, 8, 55, 3, 43, 8, 50, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 34, 51, 8, 55, 3, 43, 50, 43, 50, 34, 51, 8, 55, 3, 43, 51, 29, 30, 34, 51, 8, 55, 3, 50, 8, 50, 9, 34, 51, 8, 55, 3, 50, 43, 50, 50, 34, 51, 8, 55, 3, 50, 51, 29, 30, 34, 51, 8, 55, 3, 51, 29, 24, 30, 34, 51, 8, 55, 3, 51, 29, 33, 30, 34, 51, 8, 55, 3, 51, 29, 33, 38, 34, 51, 8, 55, 3, 51, 29, 56, 30, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 34, 51, 8, 9, 28, 55, 29, 5, 50, 8, 34, 51, 8, 9, 28, 55, 29, 5, 50, 21, 34, 51, 8, 9, 28, 55, 29, 5, 50, 50, 34, 51, 8, 9, 28, 55, 29, 5, 50, 55, 34, 51, 8, 9, 55, 6, 55, 7, 18, 55, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 34, 51, 8, 9, 55, 15, 10, 55, 3, 55, 34, 51, 8, 9, 55, 15, 23, 55, 8, 9, 34, 51, 8, 9, 55, 15, 26, 55, 3, 50, 34, 51, 8, 9, 55, 15, 26, 55, 15, 55, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 34, 51, 8, 9, 55, 15, 28, 55, 29, 30, 34, 51, 8, 9, 55, 15, 32, 58, 13, 55, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 34, 51, 8, 9, 55, 17, 16, 56, 4, 56, 34, 51, 8, 9, 55, 17, 55, 6, 55, 7, 34, 51, 8, 55, 3, 43, 8, 51, 29, 30, 34, 51, 8, 55, 3, 43, 50, 8, 50, 8, 34, 51, 8, 55, 3, 43, 50, 8, 50, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 43, 34, 51, 8, 55, 3, 43, 50, 8, 50, 50, 34, 51, 8, 55, 3, 43, 50, 43, 50, 50, 34, 51, 8, 55, 3, 43, 50, 51, 29, 30, 34, 51, 8, 55, 3, 50, 12, 55, 3, 50, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 30, 34, 51, 8, 9, 28, 55, 29, 5, 50, 8, 21, 34, 51, 8, 9, 55, 6, 55, 7, 6, 55, 7, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 2, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 11, 34, 51, 8, 9, 55, 15, 26, 55, 15, 55, 27, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 9, 34, 51, 8, 9, 55, 17, 40, 55, 6, 55, 7, 34, 51, 8, 55, 3, 43, 8, 51, 29, 30, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 34, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 34, 51, 8, 55, 3, 43, 50, 8, 50, 50, 50, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 34, 51, 8, 9, 28, 55, 29, 5, 50, 8, 21, 9, 34, 51, 8, 9, 55, 15, 26, 55, 15, 55, 27, 55, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 13, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 51, 29, 30, 34, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 50, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 13, 55, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 13, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 6, 55, 7, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 34, 34, 37, 34, 51, 34, 55, 34, 57, 34, 51, 8, 34, 51, 8, 9, 34, 51, 8, 55, 34, 51, 8, 9, 22, 34, 51, 8, 9, 28, 34, 51, 8, 9, 30, 34, 51, 8, 9, 35, 34, 51, 8, 9, 36, 34, 51, 8, 9, 39, 34, 51, 8, 9, 41, 34, 51, 8, 9, 42, 34, 51, 8, 9, 51, 34, 51, 8, 9, 55, 34, 51, 8, 55, 3, 34, 51, 8, 9, 22, 55, 34, 51, 8, 9, 28, 55, 34, 51, 8, 9, 35, 51, 34, 51, 8, 9, 35, 55, 34, 51, 8, 9, 35, 56, 34, 51, 8, 9, 36, 55, 34, 51, 8, 9, 39, 2, 34, 51, 8, 9, 41, 55, 34, 51, 8, 9, 42, 55, 34, 51, 8, 9, 51, 55, 34, 51, 8, 9, 55, 6, 34, 51, 8, 9, 55, 15, 34, 51, 8, 9, 55, 17, 34, 51, 8, 9, 55, 18, 34, 51, 8, 55, 3, 8, 34, 51, 8, 55, 3, 22, 34, 51, 8, 55, 3, 43, 34, 51, 8, 55, 3, 50, 34, 51, 8, 55, 3, 51, 34, 51, 8, 55, 3, 53, 34, 51, 8, 55, 3, 58, 34, 51, 8, 9, 22, 55, 51, 34, 51, 8, 9, 28, 55, 29, 34, 51, 8, 9, 35, 51, 4, 34, 51, 8, 9, 39, 2, 39, 34, 51, 8, 9, 55, 6, 55, 34, 51, 8, 9, 55, 15, 10, 34, 51, 8, 9, 55, 15, 19, 34, 51, 8, 9, 55, 15, 23, 34, 51, 8, 9, 55, 15, 26, 34, 51, 8, 9, 55, 15, 28, 34, 51, 8, 9, 55, 15, 31, 34, 51, 8, 9, 55, 15, 32, 34, 51, 8, 9, 55, 15, 49, 34, 51, 8, 9, 55, 15, 50, 34, 51, 8, 9, 55, 15, 51, 34, 51, 8, 9, 55, 15, 53, 34, 51, 8, 9, 55, 15, 54, 34, 51, 8, 9, 55, 15, 55, 34, 51, 8, 9, 55, 17, 16, 34, 51, 8, 9, 55, 17, 40, 34, 51, 8, 9, 55, 17, 55, 34, 51, 8, 9, 55, 18, 55, 34, 51, 8, 55, 3, 8, 50, 34, 51, 8, 55, 3, 22, 58, 34, 51, 8, 55, 3, 43, 8, 34, 51, 8, 55, 3, 43, 50, 34, 51, 8, 55, 3, 50, 8, 34, 51, 8, 55, 3, 50, 12, 34, 51, 8, 55, 3, 50, 14, 34, 51, 8, 55, 3, 50, 43, 34, 51, 8, 55, 3, 50, 50, 34, 51, 8, 55, 3, 50, 58, 34, 51, 8, 55, 3, 51, 4, 34, 51, 8, 55, 3, 51, 29, 34, 51, 8, 55, 3, 53, 4, 34, 51, 8, 9, 28, 55, 29, 5, 34, 51, 8, 9, 35, 51, 4, 55, 34, 51, 8, 9, 55, 6, 55, 7, 34, 51, 8, 9, 55, 15, 10, 55, 34, 51, 8, 9, 55, 15, 19, 55, 34, 51, 8, 9, 55, 15, 23, 55, 34, 51, 8, 9, 55, 15, 26, 55, 34, 51, 8, 9, 55, 15, 28, 55, 34, 51, 8, 9, 55, 15, 31, 8, 34, 51, 8, 9, 55, 15, 32, 58, 34, 51, 8, 9, 55, 15, 49, 50, 34, 51, 8, 9, 55, 15, 50, 10, 34, 51, 8, 9, 55, 15, 51, 52, 34, 51, 8, 9, 55, 15, 55, 55, 34, 51, 8, 9, 55, 17, 16, 40, 34, 51, 8, 9, 55, 17, 16, 51, 34, 51, 8, 9, 55, 17, 16, 55, 34, 51, 8, 9, 55, 17, 16, 56, 34, 51, 8, 9, 55, 17, 40, 55, 34, 51, 8, 55, 3, 8, 50, 9, 34, 51, 8, 55, 3, 22, 58, 4, 34, 51, 8, 55, 3, 43, 8, 50, 34, 51, 8, 55, 3, 43, 50, 8, 34, 51, 8, 55, 3, 43, 50, 43, 34, 51, 8, 55, 3, 43, 50, 50, 34, 51, 8, 55, 3, 50, 8, 50, 34, 51, 8, 55, 3, 50, 14, 50, 34, 51, 8, 55, 3, 50, 43, 50, 34, 51, 8, 55, 3, 51, 4, 51, 34, 51, 8, 55, 3, 51, 29, 24, 34, 51, 8, 55, 3, 51, 29, 30, 34, 51, 8, 55, 3, 51, 29, 33, 34, 51, 8, 55, 3, 51, 29, 56, 34, 51, 8, 55, 3, 53, 4, 51, 34, 51, 8, 9, 28, 55, 29, 5, 21, 34, 51, 8, 9, 28, 55, 29, 5, 50, 34, 51, 8, 9, 28, 55, 29, 5, 55, 34, 51, 8, 9, 41, 55, 6, 55, 7, 34, 51, 8, 9, 55, 6, 55, 7, 18, 34, 51, 8, 9, 55, 15, 10, 55, 3, 34, 51, 8, 9, 55, 15, 19, 55, 50, 34, 51, 8, 9, 55, 15, 23, 55, 8, 34, 51, 8, 9, 55, 15, 23, 55, 55, 34, 51, 8, 9, 55, 15, 26, 55, 15, 34, 51, 8, 9, 55, 15, 28, 55, 29, 34, 51, 8, 9, 55, 15, 31, 8, 55, 34, 51, 8, 9, 55, 15, 32, 58, 13, 34, 51, 8, 9, 55, 15, 49, 50, 50, 34, 51, 8, 9, 55, 15, 50, 10, 11, 34, 51, 8, 9, 55, 17, 16, 40, 55, 34, 51, 8, 9, 55, 17, 16, 51, 8, 34, 51, 8, 9, 55, 17, 16, 55, 4, 34, 51, 8, 9, 55, 17, 16, 55, 47, 34, 51, 8, 9, 55, 17, 16, 56, 4, 34, 51, 8, 55, 3, 22, 58, 4, 50, 34, 51, 8, 55, 3, 43, 8, 50, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 34, 51, 8, 55, 3, 43, 50, 43, 50, 34, 51, 8, 55, 3, 43, 51, 29, 30, 34, 51, 8, 55, 3, 50, 8, 50, 9, 34, 51, 8, 55, 3, 50, 43, 50, 50, 34, 51, 8, 55, 3, 50, 51, 29, 30, 34, 51, 8, 55, 3, 51, 29, 24, 30, 34, 51, 8, 55, 3, 51, 29, 33, 30, 34, 51, 8, 55, 3, 51, 29, 33, 38, 34, 51, 8, 55, 3, 51, 29, 56, 30, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 34, 51, 8, 9, 28, 55, 29, 5, 50, 8, 34, 51, 8, 9, 28, 55, 29, 5, 50, 21, 34, 51, 8, 9, 28, 55, 29, 5, 50, 50, 34, 51, 8, 9, 28, 55, 29, 5, 50, 55, 34, 51, 8, 9, 55, 6, 55, 7, 18, 55, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 34, 51, 8, 9, 55, 15, 10, 55, 3, 55, 34, 51, 8, 9, 55, 15, 23, 55, 8, 9, 34, 51, 8, 9, 55, 15, 26, 55, 3, 50, 34, 51, 8, 9, 55, 15, 26, 55, 15, 55, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 34, 51, 8, 9, 55, 15, 28, 55, 29, 30, 34, 51, 8, 9, 55, 15, 32, 58, 13, 55, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 34, 51, 8, 9, 55, 17, 16, 56, 4, 56, 34, 51, 8, 9, 55, 17, 55, 6, 55, 7, 34, 51, 8, 55, 3, 43, 8, 51, 29, 30, 34, 51, 8, 55, 3, 43, 50, 8, 50, 8, 34, 51, 8, 55, 3, 43, 50, 8, 50, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 43, 34, 51, 8, 55, 3, 43, 50, 8, 50, 50, 34, 51, 8, 55, 3, 43, 50, 43, 50, 50, 34, 51, 8, 55, 3, 43, 50, 51, 29, 30, 34, 51, 8, 55, 3, 50, 12, 55, 3, 50, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 30, 34, 51, 8, 9, 28, 55, 29, 5, 50, 8, 21, 34, 51, 8, 9, 55, 6, 55, 7, 6, 55, 7, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 2, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 11, 34, 51, 8, 9, 55, 15, 26, 55, 15, 55, 27, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 9, 34, 51, 8, 9, 55, 17, 40, 55, 6, 55, 7, 34, 51, 8, 55, 3, 43, 8, 51, 29, 30, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 34, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 34, 51, 8, 55, 3, 43, 50, 8, 50, 50, 50, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 34, 51, 8, 9, 28, 55, 29, 5, 50, 8, 21, 9, 34, 51, 8, 9, 55, 15, 26, 55, 15, 55, 27, 55, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 13, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 51, 29, 30, 34, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 9, 34, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 50, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 34, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 13, 55, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 13, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 6, 55, 7, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 34, 51, 8, 9, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 34, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 34, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 48, 48, 37, 48, 51, 48, 55, 48, 57, 48, 51, 8, 48, 51, 8, 9, 48, 51, 8, 55, 48, 51, 8, 9, 22, 48, 51, 8, 9, 28, 48, 51, 8, 9, 30, 48, 51, 8, 9, 35, 48, 51, 8, 9, 36, 48, 51, 8, 9, 39, 48, 51, 8, 9, 41, 48, 51, 8, 9, 42, 48, 51, 8, 9, 51, 48, 51, 8, 9, 55, 48, 51, 8, 55, 3, 48, 51, 8, 9, 22, 55, 48, 51, 8, 9, 28, 55, 48, 51, 8, 9, 35, 51, 48, 51, 8, 9, 35, 55, 48, 51, 8, 9, 35, 56, 48, 51, 8, 9, 36, 55, 48, 51, 8, 9, 39, 2, 48, 51, 8, 9, 41, 55, 48, 51, 8, 9, 42, 55, 48, 51, 8, 9, 51, 55, 48, 51, 8, 9, 55, 6, 48, 51, 8, 9, 55, 15, 48, 51, 8, 9, 55, 17, 48, 51, 8, 9, 55, 18, 48, 51, 8, 55, 3, 8, 48, 51, 8, 55, 3, 22, 48, 51, 8, 55, 3, 43, 48, 51, 8, 55, 3, 50, 48, 51, 8, 55, 3, 51, 48, 51, 8, 55, 3, 53, 48, 51, 8, 55, 3, 58, 48, 51, 8, 9, 22, 55, 51, 48, 51, 8, 9, 28, 55, 29, 48, 51, 8, 9, 35, 51, 4, 48, 51, 8, 9, 39, 2, 39, 48, 51, 8, 9, 55, 6, 55, 48, 51, 8, 9, 55, 15, 10, 48, 51, 8, 9, 55, 15, 19, 48, 51, 8, 9, 55, 15, 23, 48, 51, 8, 9, 55, 15, 26, 48, 51, 8, 9, 55, 15, 28, 48, 51, 8, 9, 55, 15, 31, 48, 51, 8, 9, 55, 15, 32, 48, 51, 8, 9, 55, 15, 49, 48, 51, 8, 9, 55, 15, 50, 48, 51, 8, 9, 55, 15, 51, 48, 51, 8, 9, 55, 15, 53, 48, 51, 8, 9, 55, 15, 54, 48, 51, 8, 9, 55, 15, 55, 48, 51, 8, 9, 55, 17, 16, 48, 51, 8, 9, 55, 17, 40, 48, 51, 8, 9, 55, 17, 55, 48, 51, 8, 9, 55, 18, 55, 48, 51, 8, 55, 3, 8, 50, 48, 51, 8, 55, 3, 22, 58, 48, 51, 8, 55, 3, 43, 8, 48, 51, 8, 55, 3, 43, 50, 48, 51, 8, 55, 3, 50, 8, 48, 51, 8, 55, 3, 50, 12, 48, 51, 8, 55, 3, 50, 14, 48, 51, 8, 55, 3, 50, 43, 48, 51, 8, 55, 3, 50, 50, 48, 51, 8, 55, 3, 50, 58, 48, 51, 8, 55, 3, 51, 4, 48, 51, 8, 55, 3, 51, 29, 48, 51, 8, 55, 3, 53, 4, 48, 51, 8, 9, 28, 55, 29, 5, 48, 51, 8, 9, 35, 51, 4, 55, 48, 51, 8, 9, 55, 6, 55, 7, 48, 51, 8, 9, 55, 15, 10, 55, 48, 51, 8, 9, 55, 15, 19, 55, 48, 51, 8, 9, 55, 15, 23, 55, 48, 51, 8, 9, 55, 15, 26, 55, 48, 51, 8, 9, 55, 15, 28, 55, 48, 51, 8, 9, 55, 15, 31, 8, 48, 51, 8, 9, 55, 15, 32, 58, 48, 51, 8, 9, 55, 15, 49, 50, 48, 51, 8, 9, 55, 15, 50, 10, 48, 51, 8, 9, 55, 15, 51, 52, 48, 51, 8, 9, 55, 15, 55, 55, 48, 51, 8, 9, 55, 17, 16, 40, 48, 51, 8, 9, 55, 17, 16, 51, 48, 51, 8, 9, 55, 17, 16, 55, 48, 51, 8, 9, 55, 17, 16, 56, 48, 51, 8, 9, 55, 17, 40, 55, 48, 51, 8, 55, 3, 8, 50, 9, 48, 51, 8, 55, 3, 22, 58, 4, 48, 51, 8, 55, 3, 43, 8, 50, 48, 51, 8, 55, 3, 43, 50, 8, 48, 51, 8, 55, 3, 43, 50, 43, 48, 51, 8, 55, 3, 43, 50, 50, 48, 51, 8, 55, 3, 50, 8, 50, 48, 51, 8, 55, 3, 50, 14, 50, 48, 51, 8, 55, 3, 50, 43, 50, 48, 51, 8, 55, 3, 51, 4, 51, 48, 51, 8, 55, 3, 51, 29, 24, 48, 51, 8, 55, 3, 51, 29, 30, 48, 51, 8, 55, 3, 51, 29, 33, 48, 51, 8, 55, 3, 51, 29, 56, 48, 51, 8, 55, 3, 53, 4, 51, 48, 51, 8, 9, 28, 55, 29, 5, 21, 48, 51, 8, 9, 28, 55, 29, 5, 50, 48, 51, 8, 9, 28, 55, 29, 5, 55, 48, 51, 8, 9, 41, 55, 6, 55, 7, 48, 51, 8, 9, 55, 6, 55, 7, 18, 48, 51, 8, 9, 55, 15, 10, 55, 3, 48, 51, 8, 9, 55, 15, 19, 55, 50, 48, 51, 8, 9, 55, 15, 23, 55, 8, 48, 51, 8, 9, 55, 15, 23, 55, 55, 48, 51, 8, 9, 55, 15, 26, 55, 15, 48, 51, 8, 9, 55, 15, 28, 55, 29, 48, 51, 8, 9, 55, 15, 31, 8, 55, 48, 51, 8, 9, 55, 15, 32, 58, 13, 48, 51, 8, 9, 55, 15, 49, 50, 50, 48, 51, 8, 9, 55, 15, 50, 10, 11, 48, 51, 8, 9, 55, 17, 16, 40, 55, 48, 51, 8, 9, 55, 17, 16, 51, 8, 48, 51, 8, 9, 55, 17, 16, 55, 4, 48, 51, 8, 9, 55, 17, 16, 55, 47, 48, 51, 8, 9, 55, 17, 16, 56, 4, 48, 51, 8, 55, 3, 22, 58, 4, 50, 48, 51, 8, 55, 3, 43, 8, 50, 9, 48, 51, 8, 55, 3, 43, 50, 8, 50, 48, 51, 8, 55, 3, 43, 50, 43, 50, 48, 51, 8, 55, 3, 43, 51, 29, 30, 48, 51, 8, 55, 3, 50, 8, 50, 9, 48, 51, 8, 55, 3, 50, 43, 50, 50, 48, 51, 8, 55, 3, 50, 51, 29, 30, 48, 51, 8, 55, 3, 51, 29, 24, 30, 48, 51, 8, 55, 3, 51, 29, 33, 30, 48, 51, 8, 55, 3, 51, 29, 33, 38, 48, 51, 8, 55, 3, 51, 29, 56, 30, 48, 51, 8, 9, 28, 55, 29, 5, 21, 13, 48, 51, 8, 9, 28, 55, 29, 5, 50, 8, 48, 51, 8, 9, 28, 55, 29, 5, 50, 21, 48, 51, 8, 9, 28, 55, 29, 5, 50, 50, 48, 51, 8, 9, 28, 55, 29, 5, 50, 55, 48, 51, 8, 9, 55, 6, 55, 7, 18, 55, 48, 51, 8, 9, 55, 15, 10, 55, 3, 53, 48, 51, 8, 9, 55, 15, 10, 55, 3, 55, 48, 51, 8, 9, 55, 15, 23, 55, 8, 9, 48, 51, 8, 9, 55, 15, 26, 55, 3, 50, 48, 51, 8, 9, 55, 15, 26, 55, 15, 55, 48, 51, 8, 9, 55, 15, 28, 55, 29, 5, 48, 51, 8, 9, 55, 15, 28, 55, 29, 30, 48, 51, 8, 9, 55, 15, 32, 58, 13, 55, 48, 51, 8, 9, 55, 17, 16, 40, 55, 4, 48, 51, 8, 9, 55, 17, 16, 51, 8, 55, 48, 51, 8, 9, 55, 17, 16, 55, 4, 55, 48, 51, 8, 9, 55, 17, 16, 56, 4, 56, 48, 51, 8, 9, 55, 17, 55, 6, 55, 7, 48, 51, 8, 55, 3, 43, 8, 51, 29, 30, 48, 51, 8, 55, 3, 43, 50, 8, 50, 8, 48, 51, 8, 55, 3, 43, 50, 8, 50, 9, 48, 51, 8, 55, 3, 43, 50, 8, 50, 43, 48, 51, 8, 55, 3, 43, 50, 8, 50, 50, 48, 51, 8, 55, 3, 43, 50, 43, 50, 50, 48, 51, 8, 55, 3, 43, 50, 51, 29, 30, 48, 51, 8, 55, 3, 50, 12, 55, 3, 50, 48, 51, 8, 55, 3, 51, 29, 33, 38, 55, 48, 51, 8, 9, 28, 55, 29, 5, 21, 13, 30, 48, 51, 8, 9, 28, 55, 29, 5, 50, 8, 21, 48, 51, 8, 9, 55, 6, 55, 7, 6, 55, 7, 48, 51, 8, 9, 55, 15, 10, 55, 3, 53, 2, 48, 51, 8, 9, 55, 15, 10, 55, 3, 53, 11, 48, 51, 8, 9, 55, 15, 26, 55, 15, 55, 27, 48, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 48, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 48, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 48, 51, 8, 9, 55, 17, 16, 51, 8, 55, 9, 48, 51, 8, 9, 55, 17, 40, 55, 6, 55, 7, 48, 51, 8, 55, 3, 43, 8, 51, 29, 30, 9, 48, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 48, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 48, 51, 8, 55, 3, 43, 50, 8, 50, 50, 50, 48, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 48, 51, 8, 9, 28, 55, 29, 5, 50, 8, 21, 9, 48, 51, 8, 9, 55, 15, 26, 55, 15, 55, 27, 55, 48, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 13, 48, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 48, 51, 8, 9, 55, 17, 16, 55, 47, 51, 29, 30, 48, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 9, 48, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 50, 48, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 48, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 48, 51, 8, 9, 55, 15, 28, 55, 29, 5, 21, 13, 55, 48, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 13, 48, 51, 8, 9, 55, 17, 16, 55, 4, 55, 6, 55, 7, 48, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 48, 51, 8, 9, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 48, 51, 8, 9, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 48, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 48, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 22, 28, 30, 35, 36, 37, 39, 41, 42, 51, 55, 57, 22, 55, 28, 55, 35, 51, 35, 55, 35, 56, 36, 55, 39, 2, 41, 55, 42, 55, 51, 55, 55, 6, 55, 15, 55, 17, 55, 18, 22, 55, 51, 28, 55, 29, 35, 51, 4, 39, 2, 39, 55, 6, 55, 55, 15, 10, 55, 15, 19, 55, 15, 23, 55, 15, 26, 55, 15, 28, 55, 15, 31, 55, 15, 32, 55, 15, 49, 55, 15, 50, 55, 15, 51, 55, 15, 53, 55, 15, 54, 55, 15, 55, 55, 17, 16, 55, 17, 40, 55, 17, 55, 55, 18, 55, 28, 55, 29, 5, 35, 51, 4, 55, 55, 6, 55, 7, 55, 15, 10, 55, 55, 15, 19, 55, 55, 15, 23, 55, 55, 15, 26, 55, 55, 15, 28, 55, 55, 15, 31, 8, 55, 15, 32, 58, 55, 15, 49, 8, 55, 15, 49, 50, 55, 15, 49, 51, 55, 15, 50, 10, 55, 15, 51, 4, 55, 15, 51, 52, 55, 15, 53, 4, 55, 15, 55, 55, 55, 17, 16, 40, 55, 17, 16, 51, 55, 17, 16, 55, 55, 17, 16, 56, 55, 17, 40, 55, 28, 55, 29, 5, 21, 28, 55, 29, 5, 50, 28, 55, 29, 5, 55, 41, 55, 6, 55, 7, 55, 6, 55, 7, 18, 55, 15, 10, 55, 3, 55, 15, 19, 55, 8, 55, 15, 19, 55, 43, 55, 15, 19, 55, 50, 55, 15, 19, 55, 58, 55, 15, 23, 55, 8, 55, 15, 23, 55, 55, 55, 15, 26, 55, 3, 55, 15, 26, 55, 15, 55, 15, 28, 55, 29, 55, 15, 31, 8, 55, 55, 15, 32, 58, 13, 55, 15, 49, 8, 50, 55, 15, 49, 50, 8, 55, 15, 49, 50, 43, 55, 15, 49, 50, 50, 55, 15, 49, 51, 29, 55, 15, 50, 10, 11, 55, 15, 50, 10, 50, 55, 15, 51, 4, 51, 55, 15, 53, 4, 51, 55, 17, 16, 40, 55, 55, 17, 16, 51, 8, 55, 17, 16, 55, 4, 55, 17, 16, 55, 47, 55, 17, 16, 56, 4, 28, 55, 29, 5, 21, 13, 28, 55, 29, 5, 50, 8, 28, 55, 29, 5, 50, 21, 28, 55, 29, 5, 50, 50, 28, 55, 29, 5, 50, 55, 55, 6, 55, 7, 18, 55, 55, 15, 10, 55, 3, 53, 55, 15, 10, 55, 3, 55, 55, 15, 19, 55, 8, 8, 55, 15, 19, 55, 8, 22, 55, 15, 19, 55, 8, 43, 55, 15, 19, 55, 8, 50, 55, 15, 19, 55, 8, 58, 55, 15, 19, 55, 43, 50, 55, 15, 23, 55, 8, 9, 55, 15, 26, 55, 3, 50, 55, 15, 26, 55, 15, 55, 55, 15, 28, 55, 29, 5, 55, 15, 28, 55, 29, 30, 55, 15, 32, 58, 13, 55, 55, 15, 49, 8, 50, 9, 55, 15, 49, 50, 8, 50, 55, 15, 49, 50, 43, 50, 55, 15, 49, 51, 29, 24, 55, 15, 49, 51, 29, 30, 55, 15, 49, 51, 29, 33, 55, 15, 49, 51, 29, 56, 55, 17, 16, 40, 55, 4, 55, 17, 16, 51, 8, 55, 55, 17, 16, 55, 4, 55, 55, 17, 16, 56, 4, 56, 55, 17, 55, 6, 55, 7, 28, 55, 29, 5, 21, 13, 30, 28, 55, 29, 5, 50, 8, 21, 55, 6, 55, 7, 6, 55, 7, 55, 15, 10, 55, 3, 53, 2, 55, 15, 10, 55, 3, 53, 11, 55, 15, 19, 55, 8, 8, 50, 55, 15, 19, 55, 8, 22, 58, 55, 15, 19, 55, 8, 43, 50, 55, 15, 19, 55, 8, 50, 9, 55, 15, 19, 55, 8, 50, 14, 55, 15, 19, 55, 43, 50, 50, 55, 15, 19, 55, 51, 29, 30, 55, 15, 26, 55, 15, 55, 27, 55, 15, 28, 55, 29, 5, 21, 55, 15, 31, 8, 55, 3, 50, 55, 15, 49, 8, 51, 29, 30, 55, 15, 49, 50, 8, 50, 8, 55, 15, 49, 50, 8, 50, 9, 55, 15, 49, 50, 8, 50, 43, 55, 15, 49, 50, 8, 50, 50, 55, 15, 49, 50, 43, 50, 50, 55, 15, 49, 50, 51, 29, 30, 55, 15, 49, 51, 29, 24, 30, 55, 15, 49, 51, 29, 33, 30, 55, 15, 49, 51, 29, 33, 38, 55, 15, 49, 51, 29, 56, 30, 55, 17, 16, 40, 55, 4, 55, 55, 17, 16, 51, 8, 55, 9, 55, 17, 40, 55, 6, 55, 7, 28, 55, 29, 5, 50, 8, 21, 9, 55, 15, 19, 55, 8, 8, 50, 9, 55, 15, 19, 55, 8, 22, 58, 4, 55, 15, 19, 55, 8, 43, 50, 50, 55, 15, 19, 55, 8, 50, 14, 50, 55, 15, 19, 55, 8, 51, 29, 30, 55, 15, 26, 55, 15, 55, 27, 55, 55, 15, 28, 55, 29, 5, 21, 13, 55, 15, 31, 8, 55, 3, 50, 9, 55, 15, 49, 8, 51, 29, 30, 9, 55, 15, 49, 50, 8, 50, 8, 50, 55, 15, 49, 50, 8, 50, 43, 50, 55, 15, 49, 50, 8, 50, 50, 50, 55, 15, 49, 51, 29, 33, 38, 55, 55, 17, 16, 55, 47, 51, 29, 30, 28, 55, 29, 5, 21, 13, 5, 21, 13, 55, 15, 19, 55, 8, 22, 58, 4, 50, 55, 15, 28, 55, 29, 5, 21, 13, 55, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 15, 49, 50, 8, 50, 8, 50, 9, 55, 15, 49, 50, 8, 50, 43, 50, 50, 55, 15, 49, 51, 29, 33, 38, 55, 3, 55, 17, 16, 55, 4, 55, 6, 55, 7, 55, 15, 10, 55, 3, 53, 2, 55, 3, 53, 55, 15, 31, 8, 55, 3, 50, 9, 13, 55, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 55, 15, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 33, 33, 37, 33, 51, 33, 57, 33, 51, 8, 33, 51, 8, 9, 33, 51, 8, 55, 33, 51, 8, 9, 29, 33, 51, 8, 9, 34, 33, 51, 8, 9, 38, 33, 51, 8, 9, 48, 33, 51, 8, 55, 3, 33, 51, 8, 9, 29, 10, 33, 51, 8, 9, 29, 19, 33, 51, 8, 9, 29, 23, 33, 51, 8, 9, 29, 26, 33, 51, 8, 9, 29, 28, 33, 51, 8, 9, 29, 31, 33, 51, 8, 9, 29, 32, 33, 51, 8, 9, 29, 49, 33, 51, 8, 9, 29, 50, 33, 51, 8, 9, 29, 51, 33, 51, 8, 9, 29, 53, 33, 51, 8, 9, 29, 54, 33, 51, 8, 9, 29, 55, 33, 51, 8, 9, 29, 56, 33, 51, 8, 9, 34, 51, 33, 51, 8, 9, 34, 55, 33, 51, 8, 9, 48, 51, 33, 51, 8, 55, 3, 8, 33, 51, 8, 55, 3, 22, 33, 51, 8, 55, 3, 43, 33, 51, 8, 55, 3, 50, 33, 51, 8, 55, 3, 51, 33, 51, 8, 55, 3, 58, 33, 51, 8, 9, 29, 10, 55, 33, 51, 8, 9, 29, 19, 55, 33, 51, 8, 9, 29, 23, 55, 33, 51, 8, 9, 29, 26, 55, 33, 51, 8, 9, 29, 28, 55, 33, 51, 8, 9, 29, 31, 8, 33, 51, 8, 9, 29, 32, 58, 33, 51, 8, 9, 29, 49, 50, 33, 51, 8, 9, 29, 50, 10, 33, 51, 8, 9, 29, 50, 55, 33, 51, 8, 9, 29, 51, 4, 33, 51, 8, 9, 29, 51, 52, 33, 51, 8, 9, 29, 53, 4, 33, 51, 8, 9, 29, 55, 13, 33, 51, 8, 9, 29, 55, 55, 33, 51, 8, 55, 3, 8, 50, 33, 51, 8, 55, 3, 22, 58, 33, 51, 8, 55, 3, 43, 8, 33, 51, 8, 55, 3, 43, 50, 33, 51, 8, 55, 3, 50, 8, 33, 51, 8, 55, 3, 50, 12, 33, 51, 8, 55, 3, 50, 14, 33, 51, 8, 55, 3, 50, 43, 33, 51, 8, 55, 3, 50, 50, 33, 51, 8, 55, 3, 50, 58, 33, 51, 8, 55, 3, 51, 29, 33, 51, 8, 9, 29, 10, 55, 3, 33, 51, 8, 9, 29, 19, 55, 50, 33, 51, 8, 9, 29, 23, 55, 8, 33, 51, 8, 9, 29, 23, 55, 55, 33, 51, 8, 9, 29, 26, 55, 15, 33, 51, 8, 9, 29, 28, 55, 29, 33, 51, 8, 9, 29, 31, 8, 55, 33, 51, 8, 9, 29, 32, 58, 13, 33, 51, 8, 9, 29, 49, 50, 50, 33, 51, 8, 9, 29, 50, 10, 11, 33, 51, 8, 9, 29, 51, 4, 51, 33, 51, 8, 9, 29, 51, 4, 55, 33, 51, 8, 9, 29, 53, 4, 51, 33, 51, 8, 9, 34, 51, 8, 9, 33, 51, 8, 9, 38, 55, 3, 50, 33, 51, 8, 9, 48, 51, 8, 9, 33, 51, 8, 55, 3, 8, 50, 9, 33, 51, 8, 55, 3, 22, 58, 4, 33, 51, 8, 55, 3, 43, 8, 50, 33, 51, 8, 55, 3, 43, 50, 8, 33, 51, 8, 55, 3, 43, 50, 43, 33, 51, 8, 55, 3, 43, 50, 50, 33, 51, 8, 55, 3, 50, 8, 50, 33, 51, 8, 55, 3, 50, 14, 50, 33, 51, 8, 55, 3, 50, 43, 50, 33, 51, 8, 55, 3, 51, 29, 24, 33, 51, 8, 55, 3, 51, 29, 30, 33, 51, 8, 55, 3, 51, 29, 33, 33, 51, 8, 55, 3, 51, 29, 56, 33, 51, 8, 9, 29, 10, 55, 3, 53, 33, 51, 8, 9, 29, 10, 55, 3, 55, 33, 51, 8, 9, 29, 23, 55, 8, 9, 33, 51, 8, 9, 29, 26, 55, 3, 50, 33, 51, 8, 9, 29, 26, 55, 15, 55, 33, 51, 8, 9, 29, 28, 55, 29, 5, 33, 51, 8, 9, 29, 28, 55, 29, 30, 33, 51, 8, 9, 29, 32, 58, 13, 55, 33, 51, 8, 9, 34, 51, 8, 9, 22, 33, 51, 8, 9, 34, 51, 8, 9, 28, 33, 51, 8, 9, 34, 51, 8, 9, 30, 33, 51, 8, 9, 34, 51, 8, 9, 35, 33, 51, 8, 9, 34, 51, 8, 9, 36, 33, 51, 8, 9, 34, 51, 8, 9, 39, 33, 51, 8, 9, 34, 51, 8, 9, 41, 33, 51, 8, 9, 34, 51, 8, 9, 42, 33, 51, 8, 9, 34, 51, 8, 9, 51, 33, 51, 8, 9, 34, 51, 8, 9, 55, 33, 51, 8, 9, 38, 55, 3, 50, 15, 33, 51, 8, 9, 48, 51, 8, 9, 30, 33, 51, 8, 55, 3, 22, 58, 4, 50, 33, 51, 8, 55, 3, 43, 8, 50, 9, 33, 51, 8, 55, 3, 43, 50, 8, 50, 33, 51, 8, 55, 3, 43, 50, 43, 50, 33, 51, 8, 55, 3, 43, 51, 29, 30, 33, 51, 8, 55, 3, 50, 8, 50, 9, 33, 51, 8, 55, 3, 50, 43, 50, 50, 33, 51, 8, 55, 3, 50, 51, 29, 30, 33, 51, 8, 55, 3, 51, 29, 24, 30, 33, 51, 8, 55, 3, 51, 29, 33, 30, 33, 51, 8, 55, 3, 51, 29, 33, 38, 33, 51, 8, 55, 3, 51, 29, 56, 30, 33, 51, 8, 9, 29, 10, 55, 3, 53, 2, 33, 51, 8, 9, 29, 10, 55, 3, 53, 11, 33, 51, 8, 9, 29, 26, 55, 15, 55, 27, 33, 51, 8, 9, 29, 28, 55, 29, 5, 21, 33, 51, 8, 9, 29, 28, 55, 29, 5, 50, 33, 51, 8, 9, 29, 28, 55, 29, 5, 55, 33, 51, 8, 9, 29, 31, 8, 55, 3, 50, 33, 51, 8, 9, 34, 51, 8, 9, 22, 55, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 33, 51, 8, 9, 34, 51, 8, 9, 35, 55, 33, 51, 8, 9, 34, 51, 8, 9, 36, 55, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 33, 51, 8, 9, 34, 51, 8, 9, 41, 55, 33, 51, 8, 9, 34, 51, 8, 9, 42, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 33, 51, 8, 9, 34, 51, 8, 9, 55, 15, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 33, 51, 8, 9, 34, 51, 8, 9, 55, 18, 33, 51, 8, 9, 38, 55, 3, 50, 15, 55, 33, 51, 8, 55, 3, 43, 8, 51, 29, 30, 33, 51, 8, 55, 3, 43, 50, 8, 50, 8, 33, 51, 8, 55, 3, 43, 50, 8, 50, 9, 33, 51, 8, 55, 3, 43, 50, 8, 50, 43, 33, 51, 8, 55, 3, 43, 50, 8, 50, 50, 33, 51, 8, 55, 3, 43, 50, 43, 50, 50, 33, 51, 8, 55, 3, 43, 50, 51, 29, 30, 33, 51, 8, 55, 3, 50, 12, 55, 3, 50, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 33, 51, 8, 9, 29, 26, 55, 15, 55, 27, 55, 33, 51, 8, 9, 29, 28, 55, 29, 5, 21, 13, 33, 51, 8, 9, 29, 28, 55, 29, 5, 50, 8, 33, 51, 8, 9, 29, 28, 55, 29, 5, 50, 21, 33, 51, 8, 9, 29, 28, 55, 29, 5, 50, 50, 33, 51, 8, 9, 29, 28, 55, 29, 5, 50, 55, 33, 51, 8, 9, 29, 31, 8, 55, 3, 50, 9, 33, 51, 8, 9, 34, 51, 8, 9, 22, 55, 51, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 33, 51, 8, 9, 34, 51, 8, 9, 39, 2, 39, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 15, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 18, 55, 33, 51, 8, 55, 3, 43, 8, 51, 29, 30, 9, 33, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 33, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 33, 51, 8, 55, 3, 43, 50, 8, 50, 50, 50, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 33, 51, 8, 9, 29, 28, 55, 29, 5, 21, 13, 55, 33, 51, 8, 9, 29, 28, 55, 29, 5, 50, 8, 21, 33, 51, 8, 9, 29, 31, 8, 55, 3, 50, 9, 13, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 55, 33, 51, 8, 55, 3, 43, 50, 8, 50, 8, 50, 9, 33, 51, 8, 55, 3, 43, 50, 8, 50, 43, 50, 50, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 33, 51, 8, 9, 29, 10, 55, 3, 53, 2, 55, 3, 53, 33, 51, 8, 9, 29, 28, 55, 29, 5, 50, 8, 21, 9, 33, 51, 8, 9, 29, 31, 8, 55, 3, 50, 9, 13, 55, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 33, 51, 8, 9, 34, 51, 8, 9, 41, 55, 6, 55, 7, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 18, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 4, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 18, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 56, 4, 56, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 55, 6, 55, 7, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 30, 33, 51, 8, 9, 34, 51, 8, 9, 55, 6, 55, 7, 6, 55, 7, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 51, 8, 55, 9, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 40, 55, 6, 55, 7, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 47, 51, 29, 30, 33, 51, 8, 9, 34, 51, 8, 9, 28, 55, 29, 5, 21, 13, 5, 21, 13, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 55, 4, 55, 6, 55, 7, 33, 51, 8, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 33, 51, 8, 9, 34, 51, 8, 9, 55, 17, 16, 40, 55, 4, 55, 6, 55, 7, 38, 38, 55, 38, 55, 3, 38, 55, 3, 8, 38, 55, 3, 22, 38, 55, 3, 37, 38, 55, 3, 43, 38, 55, 3, 50, 38, 55, 3, 51, 38, 55, 3, 53, 38, 55, 3, 57, 38, 55, 3, 58, 38, 55, 3, 8, 50, 38, 55, 3, 22, 58, 38, 55, 3, 43, 8, 38, 55, 3, 43, 50, 38, 55, 3, 50, 8, 38, 55, 3, 50, 14, 38, 55, 3, 50, 15, 38, 55, 3, 50, 43, 38, 55, 3, 50, 50, 38, 55, 3, 50, 58, 38, 55, 3, 51, 4, 38, 55, 3, 51, 29, 38, 55, 3, 53, 4, 38, 55, 3, 8, 50, 9, 38, 55, 3, 22, 58, 4, 38, 55, 3, 43, 8, 50, 38, 55, 3, 43, 50, 8, 38, 55, 3, 43, 50, 43, 38, 55, 3, 43, 50, 50, 38, 55, 3, 50, 8, 50, 38, 55, 3, 50, 14, 50, 38, 55, 3, 50, 15, 10, 38, 55, 3, 50, 15, 19, 38, 55, 3, 50, 15, 23, 38, 55, 3, 50, 15, 26, 38, 55, 3, 50, 15, 28, 38, 55, 3, 50, 15, 31, 38, 55, 3, 50, 15, 32, 38, 55, 3, 50, 15, 49, 38, 55, 3, 50, 15, 50, 38, 55, 3, 50, 15, 51, 38, 55, 3, 50, 15, 53, 38, 55, 3, 50, 15, 54, 38, 55, 3, 50, 15, 55, 38, 55, 3, 50, 15, 56, 38, 55, 3, 50, 43, 50, 38, 55, 3, 51, 4, 51, 38, 55, 3, 51, 29, 24, 38, 55, 3, 51, 29, 30, 38, 55, 3, 51, 29, 33, 38, 55, 3, 51, 29, 56, 38, 55, 3, 53, 4, 51, 38, 55, 3, 22, 58, 4, 50, 38, 55, 3, 43, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 38, 55, 3, 43, 50, 43, 50, 38, 55, 3, 43, 51, 29, 30, 38, 55, 3, 50, 8, 50, 9, 38, 55, 3, 50, 15, 10, 55, 38, 55, 3, 50, 15, 19, 55, 38, 55, 3, 50, 15, 23, 55, 38, 55, 3, 50, 15, 26, 55, 38, 55, 3, 50, 15, 28, 55, 38, 55, 3, 50, 15, 31, 8, 38, 55, 3, 50, 15, 32, 58, 38, 55, 3, 50, 15, 49, 50, 38, 55, 3, 50, 15, 50, 10, 38, 55, 3, 50, 15, 50, 55, 38, 55, 3, 50, 15, 51, 4, 38, 55, 3, 50, 15, 51, 52, 38, 55, 3, 50, 15, 55, 55, 38, 55, 3, 50, 43, 50, 50, 38, 55, 3, 50, 51, 29, 30, 38, 55, 3, 51, 29, 24, 30, 38, 55, 3, 51, 29, 33, 30, 38, 55, 3, 51, 29, 33, 38, 38, 55, 3, 51, 29, 56, 30, 38, 55, 3, 43, 8, 51, 29, 30, 38, 55, 3, 43, 50, 8, 50, 8, 38, 55, 3, 43, 50, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 43, 38, 55, 3, 43, 50, 8, 50, 50, 38, 55, 3, 43, 50, 43, 50, 50, 38, 55, 3, 43, 50, 51, 29, 30, 38, 55, 3, 50, 15, 10, 55, 3, 38, 55, 3, 50, 15, 19, 55, 50, 38, 55, 3, 50, 15, 23, 55, 8, 38, 55, 3, 50, 15, 23, 55, 55, 38, 55, 3, 50, 15, 26, 55, 15, 38, 55, 3, 50, 15, 28, 55, 29, 38, 55, 3, 50, 15, 31, 8, 55, 38, 55, 3, 50, 15, 32, 58, 13, 38, 55, 3, 50, 15, 49, 50, 50, 38, 55, 3, 50, 15, 50, 10, 11, 38, 55, 3, 50, 15, 51, 4, 55, 38, 55, 3, 51, 29, 33, 38, 55, 38, 55, 3, 43, 8, 51, 29, 30, 9, 38, 55, 3, 43, 50, 8, 50, 8, 50, 38, 55, 3, 43, 50, 8, 50, 43, 50, 38, 55, 3, 43, 50, 8, 50, 50, 50, 38, 55, 3, 50, 15, 10, 55, 3, 53, 38, 55, 3, 50, 15, 10, 55, 3, 55, 38, 55, 3, 50, 15, 23, 55, 8, 9, 38, 55, 3, 50, 15, 26, 55, 3, 50, 38, 55, 3, 50, 15, 26, 55, 15, 55, 38, 55, 3, 50, 15, 28, 55, 29, 5, 38, 55, 3, 50, 15, 28, 55, 29, 30, 38, 55, 3, 50, 15, 32, 58, 13, 55, 38, 55, 3, 51, 29, 33, 38, 55, 3, 38, 55, 3, 43, 50, 8, 50, 8, 50, 9, 38, 55, 3, 43, 50, 8, 50, 43, 50, 50, 38, 55, 3, 50, 15, 10, 55, 3, 53, 2, 38, 55, 3, 50, 15, 10, 55, 3, 53, 11, 38, 55, 3, 50, 15, 26, 55, 15, 55, 27, 38, 55, 3, 50, 15, 28, 55, 29, 5, 21, 38, 55, 3, 50, 15, 28, 55, 29, 5, 50, 38, 55, 3, 50, 15, 28, 55, 29, 5, 55, 38, 55, 3, 50, 15, 31, 8, 55, 3, 50, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 38, 55, 3, 50, 15, 26, 55, 15, 55, 27, 55, 38, 55, 3, 50, 15, 28, 55, 29, 5, 21, 13, 38, 55, 3, 50, 15, 28, 55, 29, 5, 50, 8, 38, 55, 3, 50, 15, 28, 55, 29, 5, 50, 21, 38, 55, 3, 50, 15, 28, 55, 29, 5, 50, 50, 38, 55, 3, 50, 15, 28, 55, 29, 5, 50, 55, 38, 55, 3, 50, 15, 31, 8, 55, 3, 50, 9, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 15, 28, 55, 29, 5, 21, 13, 55, 38, 55, 3, 50, 15, 28, 55, 29, 5, 50, 8, 21, 38, 55, 3, 50, 15, 31, 8, 55, 3, 50, 9, 13, 38, 55, 3, 50, 15, 10, 55, 3, 53, 2, 55, 3, 53, 38, 55, 3, 50, 15, 28, 55, 29, 5, 50, 8, 21, 9, 38, 55, 3, 50, 15, 31, 8, 55, 3, 50, 9, 13, 55, 38, 55, 3, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50, 29, 29, 10, 29, 19, 29, 23, 29, 26, 29, 28, 29, 31, 29, 32, 29, 37, 29, 49, 29, 50, 29, 51, 29, 53, 29, 54, 29, 55, 29, 56, 29, 57, 29, 10, 55, 29, 19, 55, 29, 23, 55, 29, 26, 55, 29, 28, 55, 29, 31, 8, 29, 32, 58, 29, 49, 8, 29, 49, 50, 29, 49, 51, 29, 50, 10, 29, 50, 55, 29, 51, 4, 29, 51, 52, 29, 53, 4, 29, 55, 13, 29, 55, 55, 29, 10, 55, 3, 29, 19, 55, 8, 29, 19, 55, 43, 29, 19, 55, 50, 29, 19, 55, 58, 29, 23, 55, 8, 29, 23, 55, 55, 29, 26, 55, 3, 29, 26, 55, 15, 29, 28, 55, 29, 29, 31, 8, 55, 29, 32, 58, 13, 29, 49, 8, 50, 29, 49, 50, 8, 29, 49, 50, 43, 29, 49, 50, 50, 29, 49, 51, 29, 29, 50, 10, 11, 29, 50, 10, 50, 29, 51, 4, 51, 29, 51, 4, 55, 29, 53, 4, 51, 29, 10, 55, 3, 53, 29, 10, 55, 3, 55, 29, 19, 55, 8, 8, 29, 19, 55, 8, 22, 29, 19, 55, 8, 43, 29, 19, 55, 8, 50, 29, 19, 55, 8, 58, 29, 19, 55, 43, 50, 29, 23, 55, 8, 9, 29, 26, 55, 3, 50, 29, 26, 55, 15, 55, 29, 28, 55, 29, 5, 29, 28, 55, 29, 30, 29, 32, 58, 13, 55, 29, 49, 8, 50, 9, 29, 49, 50, 8, 50, 29, 49, 50, 43, 50, 29, 49, 51, 29, 24, 29, 49, 51, 29, 30, 29, 49, 51, 29, 33, 29, 49, 51, 29, 56, 29, 10, 55, 3, 53, 2, 29, 10, 55, 3, 53, 11, 29, 19, 55, 8, 8, 50, 29, 19, 55, 8, 22, 58, 29, 19, 55, 8, 43, 50, 29, 19, 55, 8, 50, 9, 29, 19, 55, 8, 50, 14, 29, 19, 55, 43, 50, 50, 29, 19, 55, 51, 29, 30, 29, 26, 55, 15, 55, 27, 29, 28, 55, 29, 5, 21, 29, 28, 55, 29, 5, 50, 29, 28, 55, 29, 5, 55, 29, 31, 8, 55, 3, 50, 29, 49, 8, 51, 29, 30, 29, 49, 50, 8, 50, 8, 29, 49, 50, 8, 50, 9, 29, 49, 50, 8, 50, 43, 29, 49, 50, 8, 50, 50, 29, 49, 50, 43, 50, 50, 29, 49, 50, 51, 29, 30, 29, 49, 51, 29, 24, 30, 29, 49, 51, 29, 33, 30, 29, 49, 51, 29, 33, 38, 29, 49, 51, 29, 56, 30, 29, 19, 55, 8, 8, 50, 9, 29, 19, 55, 8, 22, 58, 4, 29, 19, 55, 8, 43, 50, 50, 29, 19, 55, 8, 50, 14, 50, 29, 19, 55, 8, 51, 29, 30, 29, 26, 55, 15, 55, 27, 55, 29, 28, 55, 29, 5, 21, 13, 29, 28, 55, 29, 5, 50, 8, 29, 28, 55, 29, 5, 50, 21, 29, 28, 55, 29, 5, 50, 50, 29, 28, 55, 29, 5, 50, 55, 29, 31, 8, 55, 3, 50, 9, 29, 49, 8, 51, 29, 30, 9, 29, 49, 50, 8, 50, 8, 50, 29, 49, 50, 8, 50, 43, 50, 29, 49, 50, 8, 50, 50, 50, 29, 49, 51, 29, 33, 38, 55, 29, 19, 55, 8, 22, 58, 4, 50, 29, 28, 55, 29, 5, 21, 13, 55, 29, 28, 55, 29, 5, 50, 8, 21, 29, 31, 8, 55, 3, 50, 9, 13, 29, 49, 50, 8, 50, 8, 50, 9, 29, 49, 50, 8, 50, 43, 50, 50, 29, 49, 51, 29, 33, 38, 55, 3, 29, 10, 55, 3, 53, 2, 55, 3, 53, 29, 28, 55, 29, 5, 50, 8, 21, 9, 29, 31, 8, 55, 3, 50, 9, 13, 55, 29, 49, 51, 29, 33, 38, 55, 3, 50, 29, 49, 51, 29, 33, 38, 55, 3, 50, 12, 29, 49, 51, 29, 33, 38, 55, 3, 50, 12, 38, 55, 3, 50];
pub const START: u8 = 128;
