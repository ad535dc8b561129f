#include "whole.cpp"
// documents as odd as the parser can yield them: every step copes with them, and so does every output format
#include "serializers/PlainTextExtendedSerializer.h"
#include "serializers/JsonlSerializer.h"
static int kinds[4], flat; static double ax[4], ay[4];
static void chooseAny() { flat = sym_choice(P(2), "page"); for (int i = 0; i < n; i++) { ax[i] = 50 + sym_grid(0, P(1), 10, "x"); ay[i] = 100 + sym_grid(0, P(1), 10, "y"); } }
static void drawAny() { auto* p = mkPage(theDoc, 1); if (flat == 1) { p->clipRightX = 0; p->clipLowerY = 0; } if (flat == 2) { p->clipLeftX = 300; p->clipUpperY = 300; }
    for (int i = 0; i < n; i++) { double x = ax[i] + (P(3) == 1) * 6 * i, y = ay[i] + (P(3) == 2) * 12 * i, w = 5, h = 10, fs = 10; int k = kinds[i]; if (k == 11 || k == 12 || k == 13) { other(1, x, y, k == 12 ? 0 : 30, k == 13 ? 0 : 20, k - 10); continue; }
      if (k == 1) w = 0; if (k == 2) h = 0; if (k == 3) fs = 0; if (k == 3 || k == 4) w = h = 0; if (k == 7) { x = 1e7; y = -1e7; } if (k == 8) { w = 3000; h = 4000; fs = 4000; }
      auto* c = put(1, k == 5 ? "" : string(1, "a1-."[i]), x, y, w, fs); c->pos->lowerY = y + h; c->base = y + h; if (k == 5) c->unicodes.clear(); if (k == 6) { c->text = c->name = "ffi"; c->unicodes = {0x66, 0x66, 0x69}; } if (k == 9) c->pos->wMode = 1, c->pos->rotation = 1; if (k == 10) { c->text = "\xe2\x80\x93"; c->unicodes = {0x2013}; } } }
extern "C" void h_any() {
  begin(); n = P(0); nPages = 1; for (int i = 0; i < n; i++) kinds[i] = sym_choice(14, "kind");
  chooseAny(); draw = drawAny;
  process(); structure(); std::stringstream a, b, c; struct X : ppp::serialization::PlainTextExtendedSerializer { using PlainTextExtendedSerializer::serializeToStream; }; struct J : ppp::serialization::JsonlSerializer { J() : JsonlSerializer(1) {} using JsonlSerializer::serializeToStream; }; X().serializeToStream(theDoc, {}, {}, a); if (!P(1)) { J().serializeToStream(theDoc, {}, {}, b); J().serializeToStream(theDoc, {}, {ppp::types::PdfElementType::CHARACTERS, ppp::types::PdfElementType::WORDS, ppp::types::PdfElementType::FIGURES, ppp::types::PdfElementType::SHAPES, ppp::types::PdfElementType::PAGES, ppp::types::PdfElementType::TEXT_BLOCKS}, c); } sym_reach("done");
}
