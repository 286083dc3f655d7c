// Code generated for CodecTypes; a type for each of many codes.
package h

import "github.com/perlin-network/noise"

const manyTypes = 300

type k0 struct{ b []byte }

func (m k0) Marshal() []byte { return m.b }

type k1 struct{ b []byte }

func (m k1) Marshal() []byte { return m.b }

type k2 struct{ b []byte }

func (m k2) Marshal() []byte { return m.b }

type k3 struct{ b []byte }

func (m k3) Marshal() []byte { return m.b }

type k4 struct{ b []byte }

func (m k4) Marshal() []byte { return m.b }

type k5 struct{ b []byte }

func (m k5) Marshal() []byte { return m.b }

type k6 struct{ b []byte }

func (m k6) Marshal() []byte { return m.b }

type k7 struct{ b []byte }

func (m k7) Marshal() []byte { return m.b }

type k8 struct{ b []byte }

func (m k8) Marshal() []byte { return m.b }

type k9 struct{ b []byte }

func (m k9) Marshal() []byte { return m.b }

type k10 struct{ b []byte }

func (m k10) Marshal() []byte { return m.b }

type k11 struct{ b []byte }

func (m k11) Marshal() []byte { return m.b }

type k12 struct{ b []byte }

func (m k12) Marshal() []byte { return m.b }

type k13 struct{ b []byte }

func (m k13) Marshal() []byte { return m.b }

type k14 struct{ b []byte }

func (m k14) Marshal() []byte { return m.b }

type k15 struct{ b []byte }

func (m k15) Marshal() []byte { return m.b }

type k16 struct{ b []byte }

func (m k16) Marshal() []byte { return m.b }

type k17 struct{ b []byte }

func (m k17) Marshal() []byte { return m.b }

type k18 struct{ b []byte }

func (m k18) Marshal() []byte { return m.b }

type k19 struct{ b []byte }

func (m k19) Marshal() []byte { return m.b }

type k20 struct{ b []byte }

func (m k20) Marshal() []byte { return m.b }

type k21 struct{ b []byte }

func (m k21) Marshal() []byte { return m.b }

type k22 struct{ b []byte }

func (m k22) Marshal() []byte { return m.b }

type k23 struct{ b []byte }

func (m k23) Marshal() []byte { return m.b }

type k24 struct{ b []byte }

func (m k24) Marshal() []byte { return m.b }

type k25 struct{ b []byte }

func (m k25) Marshal() []byte { return m.b }

type k26 struct{ b []byte }

func (m k26) Marshal() []byte { return m.b }

type k27 struct{ b []byte }

func (m k27) Marshal() []byte { return m.b }

type k28 struct{ b []byte }

func (m k28) Marshal() []byte { return m.b }

type k29 struct{ b []byte }

func (m k29) Marshal() []byte { return m.b }

type k30 struct{ b []byte }

func (m k30) Marshal() []byte { return m.b }

type k31 struct{ b []byte }

func (m k31) Marshal() []byte { return m.b }

type k32 struct{ b []byte }

func (m k32) Marshal() []byte { return m.b }

type k33 struct{ b []byte }

func (m k33) Marshal() []byte { return m.b }

type k34 struct{ b []byte }

func (m k34) Marshal() []byte { return m.b }

type k35 struct{ b []byte }

func (m k35) Marshal() []byte { return m.b }

type k36 struct{ b []byte }

func (m k36) Marshal() []byte { return m.b }

type k37 struct{ b []byte }

func (m k37) Marshal() []byte { return m.b }

type k38 struct{ b []byte }

func (m k38) Marshal() []byte { return m.b }

type k39 struct{ b []byte }

func (m k39) Marshal() []byte { return m.b }

type k40 struct{ b []byte }

func (m k40) Marshal() []byte { return m.b }

type k41 struct{ b []byte }

func (m k41) Marshal() []byte { return m.b }

type k42 struct{ b []byte }

func (m k42) Marshal() []byte { return m.b }

type k43 struct{ b []byte }

func (m k43) Marshal() []byte { return m.b }

type k44 struct{ b []byte }

func (m k44) Marshal() []byte { return m.b }

type k45 struct{ b []byte }

func (m k45) Marshal() []byte { return m.b }

type k46 struct{ b []byte }

func (m k46) Marshal() []byte { return m.b }

type k47 struct{ b []byte }

func (m k47) Marshal() []byte { return m.b }

type k48 struct{ b []byte }

func (m k48) Marshal() []byte { return m.b }

type k49 struct{ b []byte }

func (m k49) Marshal() []byte { return m.b }

type k50 struct{ b []byte }

func (m k50) Marshal() []byte { return m.b }

type k51 struct{ b []byte }

func (m k51) Marshal() []byte { return m.b }

type k52 struct{ b []byte }

func (m k52) Marshal() []byte { return m.b }

type k53 struct{ b []byte }

func (m k53) Marshal() []byte { return m.b }

type k54 struct{ b []byte }

func (m k54) Marshal() []byte { return m.b }

type k55 struct{ b []byte }

func (m k55) Marshal() []byte { return m.b }

type k56 struct{ b []byte }

func (m k56) Marshal() []byte { return m.b }

type k57 struct{ b []byte }

func (m k57) Marshal() []byte { return m.b }

type k58 struct{ b []byte }

func (m k58) Marshal() []byte { return m.b }

type k59 struct{ b []byte }

func (m k59) Marshal() []byte { return m.b }

type k60 struct{ b []byte }

func (m k60) Marshal() []byte { return m.b }

type k61 struct{ b []byte }

func (m k61) Marshal() []byte { return m.b }

type k62 struct{ b []byte }

func (m k62) Marshal() []byte { return m.b }

type k63 struct{ b []byte }

func (m k63) Marshal() []byte { return m.b }

type k64 struct{ b []byte }

func (m k64) Marshal() []byte { return m.b }

type k65 struct{ b []byte }

func (m k65) Marshal() []byte { return m.b }

type k66 struct{ b []byte }

func (m k66) Marshal() []byte { return m.b }

type k67 struct{ b []byte }

func (m k67) Marshal() []byte { return m.b }

type k68 struct{ b []byte }

func (m k68) Marshal() []byte { return m.b }

type k69 struct{ b []byte }

func (m k69) Marshal() []byte { return m.b }

type k70 struct{ b []byte }

func (m k70) Marshal() []byte { return m.b }

type k71 struct{ b []byte }

func (m k71) Marshal() []byte { return m.b }

type k72 struct{ b []byte }

func (m k72) Marshal() []byte { return m.b }

type k73 struct{ b []byte }

func (m k73) Marshal() []byte { return m.b }

type k74 struct{ b []byte }

func (m k74) Marshal() []byte { return m.b }

type k75 struct{ b []byte }

func (m k75) Marshal() []byte { return m.b }

type k76 struct{ b []byte }

func (m k76) Marshal() []byte { return m.b }

type k77 struct{ b []byte }

func (m k77) Marshal() []byte { return m.b }

type k78 struct{ b []byte }

func (m k78) Marshal() []byte { return m.b }

type k79 struct{ b []byte }

func (m k79) Marshal() []byte { return m.b }

type k80 struct{ b []byte }

func (m k80) Marshal() []byte { return m.b }

type k81 struct{ b []byte }

func (m k81) Marshal() []byte { return m.b }

type k82 struct{ b []byte }

func (m k82) Marshal() []byte { return m.b }

type k83 struct{ b []byte }

func (m k83) Marshal() []byte { return m.b }

type k84 struct{ b []byte }

func (m k84) Marshal() []byte { return m.b }

type k85 struct{ b []byte }

func (m k85) Marshal() []byte { return m.b }

type k86 struct{ b []byte }

func (m k86) Marshal() []byte { return m.b }

type k87 struct{ b []byte }

func (m k87) Marshal() []byte { return m.b }

type k88 struct{ b []byte }

func (m k88) Marshal() []byte { return m.b }

type k89 struct{ b []byte }

func (m k89) Marshal() []byte { return m.b }

type k90 struct{ b []byte }

func (m k90) Marshal() []byte { return m.b }

type k91 struct{ b []byte }

func (m k91) Marshal() []byte { return m.b }

type k92 struct{ b []byte }

func (m k92) Marshal() []byte { return m.b }

type k93 struct{ b []byte }

func (m k93) Marshal() []byte { return m.b }

type k94 struct{ b []byte }

func (m k94) Marshal() []byte { return m.b }

type k95 struct{ b []byte }

func (m k95) Marshal() []byte { return m.b }

type k96 struct{ b []byte }

func (m k96) Marshal() []byte { return m.b }

type k97 struct{ b []byte }

func (m k97) Marshal() []byte { return m.b }

type k98 struct{ b []byte }

func (m k98) Marshal() []byte { return m.b }

type k99 struct{ b []byte }

func (m k99) Marshal() []byte { return m.b }

type k100 struct{ b []byte }

func (m k100) Marshal() []byte { return m.b }

type k101 struct{ b []byte }

func (m k101) Marshal() []byte { return m.b }

type k102 struct{ b []byte }

func (m k102) Marshal() []byte { return m.b }

type k103 struct{ b []byte }

func (m k103) Marshal() []byte { return m.b }

type k104 struct{ b []byte }

func (m k104) Marshal() []byte { return m.b }

type k105 struct{ b []byte }

func (m k105) Marshal() []byte { return m.b }

type k106 struct{ b []byte }

func (m k106) Marshal() []byte { return m.b }

type k107 struct{ b []byte }

func (m k107) Marshal() []byte { return m.b }

type k108 struct{ b []byte }

func (m k108) Marshal() []byte { return m.b }

type k109 struct{ b []byte }

func (m k109) Marshal() []byte { return m.b }

type k110 struct{ b []byte }

func (m k110) Marshal() []byte { return m.b }

type k111 struct{ b []byte }

func (m k111) Marshal() []byte { return m.b }

type k112 struct{ b []byte }

func (m k112) Marshal() []byte { return m.b }

type k113 struct{ b []byte }

func (m k113) Marshal() []byte { return m.b }

type k114 struct{ b []byte }

func (m k114) Marshal() []byte { return m.b }

type k115 struct{ b []byte }

func (m k115) Marshal() []byte { return m.b }

type k116 struct{ b []byte }

func (m k116) Marshal() []byte { return m.b }

type k117 struct{ b []byte }

func (m k117) Marshal() []byte { return m.b }

type k118 struct{ b []byte }

func (m k118) Marshal() []byte { return m.b }

type k119 struct{ b []byte }

func (m k119) Marshal() []byte { return m.b }

type k120 struct{ b []byte }

func (m k120) Marshal() []byte { return m.b }

type k121 struct{ b []byte }

func (m k121) Marshal() []byte { return m.b }

type k122 struct{ b []byte }

func (m k122) Marshal() []byte { return m.b }

type k123 struct{ b []byte }

func (m k123) Marshal() []byte { return m.b }

type k124 struct{ b []byte }

func (m k124) Marshal() []byte { return m.b }

type k125 struct{ b []byte }

func (m k125) Marshal() []byte { return m.b }

type k126 struct{ b []byte }

func (m k126) Marshal() []byte { return m.b }

type k127 struct{ b []byte }

func (m k127) Marshal() []byte { return m.b }

type k128 struct{ b []byte }

func (m k128) Marshal() []byte { return m.b }

type k129 struct{ b []byte }

func (m k129) Marshal() []byte { return m.b }

type k130 struct{ b []byte }

func (m k130) Marshal() []byte { return m.b }

type k131 struct{ b []byte }

func (m k131) Marshal() []byte { return m.b }

type k132 struct{ b []byte }

func (m k132) Marshal() []byte { return m.b }

type k133 struct{ b []byte }

func (m k133) Marshal() []byte { return m.b }

type k134 struct{ b []byte }

func (m k134) Marshal() []byte { return m.b }

type k135 struct{ b []byte }

func (m k135) Marshal() []byte { return m.b }

type k136 struct{ b []byte }

func (m k136) Marshal() []byte { return m.b }

type k137 struct{ b []byte }

func (m k137) Marshal() []byte { return m.b }

type k138 struct{ b []byte }

func (m k138) Marshal() []byte { return m.b }

type k139 struct{ b []byte }

func (m k139) Marshal() []byte { return m.b }

type k140 struct{ b []byte }

func (m k140) Marshal() []byte { return m.b }

type k141 struct{ b []byte }

func (m k141) Marshal() []byte { return m.b }

type k142 struct{ b []byte }

func (m k142) Marshal() []byte { return m.b }

type k143 struct{ b []byte }

func (m k143) Marshal() []byte { return m.b }

type k144 struct{ b []byte }

func (m k144) Marshal() []byte { return m.b }

type k145 struct{ b []byte }

func (m k145) Marshal() []byte { return m.b }

type k146 struct{ b []byte }

func (m k146) Marshal() []byte { return m.b }

type k147 struct{ b []byte }

func (m k147) Marshal() []byte { return m.b }

type k148 struct{ b []byte }

func (m k148) Marshal() []byte { return m.b }

type k149 struct{ b []byte }

func (m k149) Marshal() []byte { return m.b }

type k150 struct{ b []byte }

func (m k150) Marshal() []byte { return m.b }

type k151 struct{ b []byte }

func (m k151) Marshal() []byte { return m.b }

type k152 struct{ b []byte }

func (m k152) Marshal() []byte { return m.b }

type k153 struct{ b []byte }

func (m k153) Marshal() []byte { return m.b }

type k154 struct{ b []byte }

func (m k154) Marshal() []byte { return m.b }

type k155 struct{ b []byte }

func (m k155) Marshal() []byte { return m.b }

type k156 struct{ b []byte }

func (m k156) Marshal() []byte { return m.b }

type k157 struct{ b []byte }

func (m k157) Marshal() []byte { return m.b }

type k158 struct{ b []byte }

func (m k158) Marshal() []byte { return m.b }

type k159 struct{ b []byte }

func (m k159) Marshal() []byte { return m.b }

type k160 struct{ b []byte }

func (m k160) Marshal() []byte { return m.b }

type k161 struct{ b []byte }

func (m k161) Marshal() []byte { return m.b }

type k162 struct{ b []byte }

func (m k162) Marshal() []byte { return m.b }

type k163 struct{ b []byte }

func (m k163) Marshal() []byte { return m.b }

type k164 struct{ b []byte }

func (m k164) Marshal() []byte { return m.b }

type k165 struct{ b []byte }

func (m k165) Marshal() []byte { return m.b }

type k166 struct{ b []byte }

func (m k166) Marshal() []byte { return m.b }

type k167 struct{ b []byte }

func (m k167) Marshal() []byte { return m.b }

type k168 struct{ b []byte }

func (m k168) Marshal() []byte { return m.b }

type k169 struct{ b []byte }

func (m k169) Marshal() []byte { return m.b }

type k170 struct{ b []byte }

func (m k170) Marshal() []byte { return m.b }

type k171 struct{ b []byte }

func (m k171) Marshal() []byte { return m.b }

type k172 struct{ b []byte }

func (m k172) Marshal() []byte { return m.b }

type k173 struct{ b []byte }

func (m k173) Marshal() []byte { return m.b }

type k174 struct{ b []byte }

func (m k174) Marshal() []byte { return m.b }

type k175 struct{ b []byte }

func (m k175) Marshal() []byte { return m.b }

type k176 struct{ b []byte }

func (m k176) Marshal() []byte { return m.b }

type k177 struct{ b []byte }

func (m k177) Marshal() []byte { return m.b }

type k178 struct{ b []byte }

func (m k178) Marshal() []byte { return m.b }

type k179 struct{ b []byte }

func (m k179) Marshal() []byte { return m.b }

type k180 struct{ b []byte }

func (m k180) Marshal() []byte { return m.b }

type k181 struct{ b []byte }

func (m k181) Marshal() []byte { return m.b }

type k182 struct{ b []byte }

func (m k182) Marshal() []byte { return m.b }

type k183 struct{ b []byte }

func (m k183) Marshal() []byte { return m.b }

type k184 struct{ b []byte }

func (m k184) Marshal() []byte { return m.b }

type k185 struct{ b []byte }

func (m k185) Marshal() []byte { return m.b }

type k186 struct{ b []byte }

func (m k186) Marshal() []byte { return m.b }

type k187 struct{ b []byte }

func (m k187) Marshal() []byte { return m.b }

type k188 struct{ b []byte }

func (m k188) Marshal() []byte { return m.b }

type k189 struct{ b []byte }

func (m k189) Marshal() []byte { return m.b }

type k190 struct{ b []byte }

func (m k190) Marshal() []byte { return m.b }

type k191 struct{ b []byte }

func (m k191) Marshal() []byte { return m.b }

type k192 struct{ b []byte }

func (m k192) Marshal() []byte { return m.b }

type k193 struct{ b []byte }

func (m k193) Marshal() []byte { return m.b }

type k194 struct{ b []byte }

func (m k194) Marshal() []byte { return m.b }

type k195 struct{ b []byte }

func (m k195) Marshal() []byte { return m.b }

type k196 struct{ b []byte }

func (m k196) Marshal() []byte { return m.b }

type k197 struct{ b []byte }

func (m k197) Marshal() []byte { return m.b }

type k198 struct{ b []byte }

func (m k198) Marshal() []byte { return m.b }

type k199 struct{ b []byte }

func (m k199) Marshal() []byte { return m.b }

type k200 struct{ b []byte }

func (m k200) Marshal() []byte { return m.b }

type k201 struct{ b []byte }

func (m k201) Marshal() []byte { return m.b }

type k202 struct{ b []byte }

func (m k202) Marshal() []byte { return m.b }

type k203 struct{ b []byte }

func (m k203) Marshal() []byte { return m.b }

type k204 struct{ b []byte }

func (m k204) Marshal() []byte { return m.b }

type k205 struct{ b []byte }

func (m k205) Marshal() []byte { return m.b }

type k206 struct{ b []byte }

func (m k206) Marshal() []byte { return m.b }

type k207 struct{ b []byte }

func (m k207) Marshal() []byte { return m.b }

type k208 struct{ b []byte }

func (m k208) Marshal() []byte { return m.b }

type k209 struct{ b []byte }

func (m k209) Marshal() []byte { return m.b }

type k210 struct{ b []byte }

func (m k210) Marshal() []byte { return m.b }

type k211 struct{ b []byte }

func (m k211) Marshal() []byte { return m.b }

type k212 struct{ b []byte }

func (m k212) Marshal() []byte { return m.b }

type k213 struct{ b []byte }

func (m k213) Marshal() []byte { return m.b }

type k214 struct{ b []byte }

func (m k214) Marshal() []byte { return m.b }

type k215 struct{ b []byte }

func (m k215) Marshal() []byte { return m.b }

type k216 struct{ b []byte }

func (m k216) Marshal() []byte { return m.b }

type k217 struct{ b []byte }

func (m k217) Marshal() []byte { return m.b }

type k218 struct{ b []byte }

func (m k218) Marshal() []byte { return m.b }

type k219 struct{ b []byte }

func (m k219) Marshal() []byte { return m.b }

type k220 struct{ b []byte }

func (m k220) Marshal() []byte { return m.b }

type k221 struct{ b []byte }

func (m k221) Marshal() []byte { return m.b }

type k222 struct{ b []byte }

func (m k222) Marshal() []byte { return m.b }

type k223 struct{ b []byte }

func (m k223) Marshal() []byte { return m.b }

type k224 struct{ b []byte }

func (m k224) Marshal() []byte { return m.b }

type k225 struct{ b []byte }

func (m k225) Marshal() []byte { return m.b }

type k226 struct{ b []byte }

func (m k226) Marshal() []byte { return m.b }

type k227 struct{ b []byte }

func (m k227) Marshal() []byte { return m.b }

type k228 struct{ b []byte }

func (m k228) Marshal() []byte { return m.b }

type k229 struct{ b []byte }

func (m k229) Marshal() []byte { return m.b }

type k230 struct{ b []byte }

func (m k230) Marshal() []byte { return m.b }

type k231 struct{ b []byte }

func (m k231) Marshal() []byte { return m.b }

type k232 struct{ b []byte }

func (m k232) Marshal() []byte { return m.b }

type k233 struct{ b []byte }

func (m k233) Marshal() []byte { return m.b }

type k234 struct{ b []byte }

func (m k234) Marshal() []byte { return m.b }

type k235 struct{ b []byte }

func (m k235) Marshal() []byte { return m.b }

type k236 struct{ b []byte }

func (m k236) Marshal() []byte { return m.b }

type k237 struct{ b []byte }

func (m k237) Marshal() []byte { return m.b }

type k238 struct{ b []byte }

func (m k238) Marshal() []byte { return m.b }

type k239 struct{ b []byte }

func (m k239) Marshal() []byte { return m.b }

type k240 struct{ b []byte }

func (m k240) Marshal() []byte { return m.b }

type k241 struct{ b []byte }

func (m k241) Marshal() []byte { return m.b }

type k242 struct{ b []byte }

func (m k242) Marshal() []byte { return m.b }

type k243 struct{ b []byte }

func (m k243) Marshal() []byte { return m.b }

type k244 struct{ b []byte }

func (m k244) Marshal() []byte { return m.b }

type k245 struct{ b []byte }

func (m k245) Marshal() []byte { return m.b }

type k246 struct{ b []byte }

func (m k246) Marshal() []byte { return m.b }

type k247 struct{ b []byte }

func (m k247) Marshal() []byte { return m.b }

type k248 struct{ b []byte }

func (m k248) Marshal() []byte { return m.b }

type k249 struct{ b []byte }

func (m k249) Marshal() []byte { return m.b }

type k250 struct{ b []byte }

func (m k250) Marshal() []byte { return m.b }

type k251 struct{ b []byte }

func (m k251) Marshal() []byte { return m.b }

type k252 struct{ b []byte }

func (m k252) Marshal() []byte { return m.b }

type k253 struct{ b []byte }

func (m k253) Marshal() []byte { return m.b }

type k254 struct{ b []byte }

func (m k254) Marshal() []byte { return m.b }

type k255 struct{ b []byte }

func (m k255) Marshal() []byte { return m.b }

type k256 struct{ b []byte }

func (m k256) Marshal() []byte { return m.b }

type k257 struct{ b []byte }

func (m k257) Marshal() []byte { return m.b }

type k258 struct{ b []byte }

func (m k258) Marshal() []byte { return m.b }

type k259 struct{ b []byte }

func (m k259) Marshal() []byte { return m.b }

type k260 struct{ b []byte }

func (m k260) Marshal() []byte { return m.b }

type k261 struct{ b []byte }

func (m k261) Marshal() []byte { return m.b }

type k262 struct{ b []byte }

func (m k262) Marshal() []byte { return m.b }

type k263 struct{ b []byte }

func (m k263) Marshal() []byte { return m.b }

type k264 struct{ b []byte }

func (m k264) Marshal() []byte { return m.b }

type k265 struct{ b []byte }

func (m k265) Marshal() []byte { return m.b }

type k266 struct{ b []byte }

func (m k266) Marshal() []byte { return m.b }

type k267 struct{ b []byte }

func (m k267) Marshal() []byte { return m.b }

type k268 struct{ b []byte }

func (m k268) Marshal() []byte { return m.b }

type k269 struct{ b []byte }

func (m k269) Marshal() []byte { return m.b }

type k270 struct{ b []byte }

func (m k270) Marshal() []byte { return m.b }

type k271 struct{ b []byte }

func (m k271) Marshal() []byte { return m.b }

type k272 struct{ b []byte }

func (m k272) Marshal() []byte { return m.b }

type k273 struct{ b []byte }

func (m k273) Marshal() []byte { return m.b }

type k274 struct{ b []byte }

func (m k274) Marshal() []byte { return m.b }

type k275 struct{ b []byte }

func (m k275) Marshal() []byte { return m.b }

type k276 struct{ b []byte }

func (m k276) Marshal() []byte { return m.b }

type k277 struct{ b []byte }

func (m k277) Marshal() []byte { return m.b }

type k278 struct{ b []byte }

func (m k278) Marshal() []byte { return m.b }

type k279 struct{ b []byte }

func (m k279) Marshal() []byte { return m.b }

type k280 struct{ b []byte }

func (m k280) Marshal() []byte { return m.b }

type k281 struct{ b []byte }

func (m k281) Marshal() []byte { return m.b }

type k282 struct{ b []byte }

func (m k282) Marshal() []byte { return m.b }

type k283 struct{ b []byte }

func (m k283) Marshal() []byte { return m.b }

type k284 struct{ b []byte }

func (m k284) Marshal() []byte { return m.b }

type k285 struct{ b []byte }

func (m k285) Marshal() []byte { return m.b }

type k286 struct{ b []byte }

func (m k286) Marshal() []byte { return m.b }

type k287 struct{ b []byte }

func (m k287) Marshal() []byte { return m.b }

type k288 struct{ b []byte }

func (m k288) Marshal() []byte { return m.b }

type k289 struct{ b []byte }

func (m k289) Marshal() []byte { return m.b }

type k290 struct{ b []byte }

func (m k290) Marshal() []byte { return m.b }

type k291 struct{ b []byte }

func (m k291) Marshal() []byte { return m.b }

type k292 struct{ b []byte }

func (m k292) Marshal() []byte { return m.b }

type k293 struct{ b []byte }

func (m k293) Marshal() []byte { return m.b }

type k294 struct{ b []byte }

func (m k294) Marshal() []byte { return m.b }

type k295 struct{ b []byte }

func (m k295) Marshal() []byte { return m.b }

type k296 struct{ b []byte }

func (m k296) Marshal() []byte { return m.b }

type k297 struct{ b []byte }

func (m k297) Marshal() []byte { return m.b }

type k298 struct{ b []byte }

func (m k298) Marshal() []byte { return m.b }

type k299 struct{ b []byte }

func (m k299) Marshal() []byte { return m.b }

func registerMany(n *noise.Node, upto int) []uint16 {
	var op []uint16
	if upto > 0 {
		op = append(op, n.RegisterMessage(k0{}, func(b []byte) (k0, error) { return k0{b}, nil }))
	}
	if upto > 1 {
		op = append(op, n.RegisterMessage(k1{}, func(b []byte) (k1, error) { return k1{b}, nil }))
	}
	if upto > 2 {
		op = append(op, n.RegisterMessage(k2{}, func(b []byte) (k2, error) { return k2{b}, nil }))
	}
	if upto > 3 {
		op = append(op, n.RegisterMessage(k3{}, func(b []byte) (k3, error) { return k3{b}, nil }))
	}
	if upto > 4 {
		op = append(op, n.RegisterMessage(k4{}, func(b []byte) (k4, error) { return k4{b}, nil }))
	}
	if upto > 5 {
		op = append(op, n.RegisterMessage(k5{}, func(b []byte) (k5, error) { return k5{b}, nil }))
	}
	if upto > 6 {
		op = append(op, n.RegisterMessage(k6{}, func(b []byte) (k6, error) { return k6{b}, nil }))
	}
	if upto > 7 {
		op = append(op, n.RegisterMessage(k7{}, func(b []byte) (k7, error) { return k7{b}, nil }))
	}
	if upto > 8 {
		op = append(op, n.RegisterMessage(k8{}, func(b []byte) (k8, error) { return k8{b}, nil }))
	}
	if upto > 9 {
		op = append(op, n.RegisterMessage(k9{}, func(b []byte) (k9, error) { return k9{b}, nil }))
	}
	if upto > 10 {
		op = append(op, n.RegisterMessage(k10{}, func(b []byte) (k10, error) { return k10{b}, nil }))
	}
	if upto > 11 {
		op = append(op, n.RegisterMessage(k11{}, func(b []byte) (k11, error) { return k11{b}, nil }))
	}
	if upto > 12 {
		op = append(op, n.RegisterMessage(k12{}, func(b []byte) (k12, error) { return k12{b}, nil }))
	}
	if upto > 13 {
		op = append(op, n.RegisterMessage(k13{}, func(b []byte) (k13, error) { return k13{b}, nil }))
	}
	if upto > 14 {
		op = append(op, n.RegisterMessage(k14{}, func(b []byte) (k14, error) { return k14{b}, nil }))
	}
	if upto > 15 {
		op = append(op, n.RegisterMessage(k15{}, func(b []byte) (k15, error) { return k15{b}, nil }))
	}
	if upto > 16 {
		op = append(op, n.RegisterMessage(k16{}, func(b []byte) (k16, error) { return k16{b}, nil }))
	}
	if upto > 17 {
		op = append(op, n.RegisterMessage(k17{}, func(b []byte) (k17, error) { return k17{b}, nil }))
	}
	if upto > 18 {
		op = append(op, n.RegisterMessage(k18{}, func(b []byte) (k18, error) { return k18{b}, nil }))
	}
	if upto > 19 {
		op = append(op, n.RegisterMessage(k19{}, func(b []byte) (k19, error) { return k19{b}, nil }))
	}
	if upto > 20 {
		op = append(op, n.RegisterMessage(k20{}, func(b []byte) (k20, error) { return k20{b}, nil }))
	}
	if upto > 21 {
		op = append(op, n.RegisterMessage(k21{}, func(b []byte) (k21, error) { return k21{b}, nil }))
	}
	if upto > 22 {
		op = append(op, n.RegisterMessage(k22{}, func(b []byte) (k22, error) { return k22{b}, nil }))
	}
	if upto > 23 {
		op = append(op, n.RegisterMessage(k23{}, func(b []byte) (k23, error) { return k23{b}, nil }))
	}
	if upto > 24 {
		op = append(op, n.RegisterMessage(k24{}, func(b []byte) (k24, error) { return k24{b}, nil }))
	}
	if upto > 25 {
		op = append(op, n.RegisterMessage(k25{}, func(b []byte) (k25, error) { return k25{b}, nil }))
	}
	if upto > 26 {
		op = append(op, n.RegisterMessage(k26{}, func(b []byte) (k26, error) { return k26{b}, nil }))
	}
	if upto > 27 {
		op = append(op, n.RegisterMessage(k27{}, func(b []byte) (k27, error) { return k27{b}, nil }))
	}
	if upto > 28 {
		op = append(op, n.RegisterMessage(k28{}, func(b []byte) (k28, error) { return k28{b}, nil }))
	}
	if upto > 29 {
		op = append(op, n.RegisterMessage(k29{}, func(b []byte) (k29, error) { return k29{b}, nil }))
	}
	if upto > 30 {
		op = append(op, n.RegisterMessage(k30{}, func(b []byte) (k30, error) { return k30{b}, nil }))
	}
	if upto > 31 {
		op = append(op, n.RegisterMessage(k31{}, func(b []byte) (k31, error) { return k31{b}, nil }))
	}
	if upto > 32 {
		op = append(op, n.RegisterMessage(k32{}, func(b []byte) (k32, error) { return k32{b}, nil }))
	}
	if upto > 33 {
		op = append(op, n.RegisterMessage(k33{}, func(b []byte) (k33, error) { return k33{b}, nil }))
	}
	if upto > 34 {
		op = append(op, n.RegisterMessage(k34{}, func(b []byte) (k34, error) { return k34{b}, nil }))
	}
	if upto > 35 {
		op = append(op, n.RegisterMessage(k35{}, func(b []byte) (k35, error) { return k35{b}, nil }))
	}
	if upto > 36 {
		op = append(op, n.RegisterMessage(k36{}, func(b []byte) (k36, error) { return k36{b}, nil }))
	}
	if upto > 37 {
		op = append(op, n.RegisterMessage(k37{}, func(b []byte) (k37, error) { return k37{b}, nil }))
	}
	if upto > 38 {
		op = append(op, n.RegisterMessage(k38{}, func(b []byte) (k38, error) { return k38{b}, nil }))
	}
	if upto > 39 {
		op = append(op, n.RegisterMessage(k39{}, func(b []byte) (k39, error) { return k39{b}, nil }))
	}
	if upto > 40 {
		op = append(op, n.RegisterMessage(k40{}, func(b []byte) (k40, error) { return k40{b}, nil }))
	}
	if upto > 41 {
		op = append(op, n.RegisterMessage(k41{}, func(b []byte) (k41, error) { return k41{b}, nil }))
	}
	if upto > 42 {
		op = append(op, n.RegisterMessage(k42{}, func(b []byte) (k42, error) { return k42{b}, nil }))
	}
	if upto > 43 {
		op = append(op, n.RegisterMessage(k43{}, func(b []byte) (k43, error) { return k43{b}, nil }))
	}
	if upto > 44 {
		op = append(op, n.RegisterMessage(k44{}, func(b []byte) (k44, error) { return k44{b}, nil }))
	}
	if upto > 45 {
		op = append(op, n.RegisterMessage(k45{}, func(b []byte) (k45, error) { return k45{b}, nil }))
	}
	if upto > 46 {
		op = append(op, n.RegisterMessage(k46{}, func(b []byte) (k46, error) { return k46{b}, nil }))
	}
	if upto > 47 {
		op = append(op, n.RegisterMessage(k47{}, func(b []byte) (k47, error) { return k47{b}, nil }))
	}
	if upto > 48 {
		op = append(op, n.RegisterMessage(k48{}, func(b []byte) (k48, error) { return k48{b}, nil }))
	}
	if upto > 49 {
		op = append(op, n.RegisterMessage(k49{}, func(b []byte) (k49, error) { return k49{b}, nil }))
	}
	if upto > 50 {
		op = append(op, n.RegisterMessage(k50{}, func(b []byte) (k50, error) { return k50{b}, nil }))
	}
	if upto > 51 {
		op = append(op, n.RegisterMessage(k51{}, func(b []byte) (k51, error) { return k51{b}, nil }))
	}
	if upto > 52 {
		op = append(op, n.RegisterMessage(k52{}, func(b []byte) (k52, error) { return k52{b}, nil }))
	}
	if upto > 53 {
		op = append(op, n.RegisterMessage(k53{}, func(b []byte) (k53, error) { return k53{b}, nil }))
	}
	if upto > 54 {
		op = append(op, n.RegisterMessage(k54{}, func(b []byte) (k54, error) { return k54{b}, nil }))
	}
	if upto > 55 {
		op = append(op, n.RegisterMessage(k55{}, func(b []byte) (k55, error) { return k55{b}, nil }))
	}
	if upto > 56 {
		op = append(op, n.RegisterMessage(k56{}, func(b []byte) (k56, error) { return k56{b}, nil }))
	}
	if upto > 57 {
		op = append(op, n.RegisterMessage(k57{}, func(b []byte) (k57, error) { return k57{b}, nil }))
	}
	if upto > 58 {
		op = append(op, n.RegisterMessage(k58{}, func(b []byte) (k58, error) { return k58{b}, nil }))
	}
	if upto > 59 {
		op = append(op, n.RegisterMessage(k59{}, func(b []byte) (k59, error) { return k59{b}, nil }))
	}
	if upto > 60 {
		op = append(op, n.RegisterMessage(k60{}, func(b []byte) (k60, error) { return k60{b}, nil }))
	}
	if upto > 61 {
		op = append(op, n.RegisterMessage(k61{}, func(b []byte) (k61, error) { return k61{b}, nil }))
	}
	if upto > 62 {
		op = append(op, n.RegisterMessage(k62{}, func(b []byte) (k62, error) { return k62{b}, nil }))
	}
	if upto > 63 {
		op = append(op, n.RegisterMessage(k63{}, func(b []byte) (k63, error) { return k63{b}, nil }))
	}
	if upto > 64 {
		op = append(op, n.RegisterMessage(k64{}, func(b []byte) (k64, error) { return k64{b}, nil }))
	}
	if upto > 65 {
		op = append(op, n.RegisterMessage(k65{}, func(b []byte) (k65, error) { return k65{b}, nil }))
	}
	if upto > 66 {
		op = append(op, n.RegisterMessage(k66{}, func(b []byte) (k66, error) { return k66{b}, nil }))
	}
	if upto > 67 {
		op = append(op, n.RegisterMessage(k67{}, func(b []byte) (k67, error) { return k67{b}, nil }))
	}
	if upto > 68 {
		op = append(op, n.RegisterMessage(k68{}, func(b []byte) (k68, error) { return k68{b}, nil }))
	}
	if upto > 69 {
		op = append(op, n.RegisterMessage(k69{}, func(b []byte) (k69, error) { return k69{b}, nil }))
	}
	if upto > 70 {
		op = append(op, n.RegisterMessage(k70{}, func(b []byte) (k70, error) { return k70{b}, nil }))
	}
	if upto > 71 {
		op = append(op, n.RegisterMessage(k71{}, func(b []byte) (k71, error) { return k71{b}, nil }))
	}
	if upto > 72 {
		op = append(op, n.RegisterMessage(k72{}, func(b []byte) (k72, error) { return k72{b}, nil }))
	}
	if upto > 73 {
		op = append(op, n.RegisterMessage(k73{}, func(b []byte) (k73, error) { return k73{b}, nil }))
	}
	if upto > 74 {
		op = append(op, n.RegisterMessage(k74{}, func(b []byte) (k74, error) { return k74{b}, nil }))
	}
	if upto > 75 {
		op = append(op, n.RegisterMessage(k75{}, func(b []byte) (k75, error) { return k75{b}, nil }))
	}
	if upto > 76 {
		op = append(op, n.RegisterMessage(k76{}, func(b []byte) (k76, error) { return k76{b}, nil }))
	}
	if upto > 77 {
		op = append(op, n.RegisterMessage(k77{}, func(b []byte) (k77, error) { return k77{b}, nil }))
	}
	if upto > 78 {
		op = append(op, n.RegisterMessage(k78{}, func(b []byte) (k78, error) { return k78{b}, nil }))
	}
	if upto > 79 {
		op = append(op, n.RegisterMessage(k79{}, func(b []byte) (k79, error) { return k79{b}, nil }))
	}
	if upto > 80 {
		op = append(op, n.RegisterMessage(k80{}, func(b []byte) (k80, error) { return k80{b}, nil }))
	}
	if upto > 81 {
		op = append(op, n.RegisterMessage(k81{}, func(b []byte) (k81, error) { return k81{b}, nil }))
	}
	if upto > 82 {
		op = append(op, n.RegisterMessage(k82{}, func(b []byte) (k82, error) { return k82{b}, nil }))
	}
	if upto > 83 {
		op = append(op, n.RegisterMessage(k83{}, func(b []byte) (k83, error) { return k83{b}, nil }))
	}
	if upto > 84 {
		op = append(op, n.RegisterMessage(k84{}, func(b []byte) (k84, error) { return k84{b}, nil }))
	}
	if upto > 85 {
		op = append(op, n.RegisterMessage(k85{}, func(b []byte) (k85, error) { return k85{b}, nil }))
	}
	if upto > 86 {
		op = append(op, n.RegisterMessage(k86{}, func(b []byte) (k86, error) { return k86{b}, nil }))
	}
	if upto > 87 {
		op = append(op, n.RegisterMessage(k87{}, func(b []byte) (k87, error) { return k87{b}, nil }))
	}
	if upto > 88 {
		op = append(op, n.RegisterMessage(k88{}, func(b []byte) (k88, error) { return k88{b}, nil }))
	}
	if upto > 89 {
		op = append(op, n.RegisterMessage(k89{}, func(b []byte) (k89, error) { return k89{b}, nil }))
	}
	if upto > 90 {
		op = append(op, n.RegisterMessage(k90{}, func(b []byte) (k90, error) { return k90{b}, nil }))
	}
	if upto > 91 {
		op = append(op, n.RegisterMessage(k91{}, func(b []byte) (k91, error) { return k91{b}, nil }))
	}
	if upto > 92 {
		op = append(op, n.RegisterMessage(k92{}, func(b []byte) (k92, error) { return k92{b}, nil }))
	}
	if upto > 93 {
		op = append(op, n.RegisterMessage(k93{}, func(b []byte) (k93, error) { return k93{b}, nil }))
	}
	if upto > 94 {
		op = append(op, n.RegisterMessage(k94{}, func(b []byte) (k94, error) { return k94{b}, nil }))
	}
	if upto > 95 {
		op = append(op, n.RegisterMessage(k95{}, func(b []byte) (k95, error) { return k95{b}, nil }))
	}
	if upto > 96 {
		op = append(op, n.RegisterMessage(k96{}, func(b []byte) (k96, error) { return k96{b}, nil }))
	}
	if upto > 97 {
		op = append(op, n.RegisterMessage(k97{}, func(b []byte) (k97, error) { return k97{b}, nil }))
	}
	if upto > 98 {
		op = append(op, n.RegisterMessage(k98{}, func(b []byte) (k98, error) { return k98{b}, nil }))
	}
	if upto > 99 {
		op = append(op, n.RegisterMessage(k99{}, func(b []byte) (k99, error) { return k99{b}, nil }))
	}
	if upto > 100 {
		op = append(op, n.RegisterMessage(k100{}, func(b []byte) (k100, error) { return k100{b}, nil }))
	}
	if upto > 101 {
		op = append(op, n.RegisterMessage(k101{}, func(b []byte) (k101, error) { return k101{b}, nil }))
	}
	if upto > 102 {
		op = append(op, n.RegisterMessage(k102{}, func(b []byte) (k102, error) { return k102{b}, nil }))
	}
	if upto > 103 {
		op = append(op, n.RegisterMessage(k103{}, func(b []byte) (k103, error) { return k103{b}, nil }))
	}
	if upto > 104 {
		op = append(op, n.RegisterMessage(k104{}, func(b []byte) (k104, error) { return k104{b}, nil }))
	}
	if upto > 105 {
		op = append(op, n.RegisterMessage(k105{}, func(b []byte) (k105, error) { return k105{b}, nil }))
	}
	if upto > 106 {
		op = append(op, n.RegisterMessage(k106{}, func(b []byte) (k106, error) { return k106{b}, nil }))
	}
	if upto > 107 {
		op = append(op, n.RegisterMessage(k107{}, func(b []byte) (k107, error) { return k107{b}, nil }))
	}
	if upto > 108 {
		op = append(op, n.RegisterMessage(k108{}, func(b []byte) (k108, error) { return k108{b}, nil }))
	}
	if upto > 109 {
		op = append(op, n.RegisterMessage(k109{}, func(b []byte) (k109, error) { return k109{b}, nil }))
	}
	if upto > 110 {
		op = append(op, n.RegisterMessage(k110{}, func(b []byte) (k110, error) { return k110{b}, nil }))
	}
	if upto > 111 {
		op = append(op, n.RegisterMessage(k111{}, func(b []byte) (k111, error) { return k111{b}, nil }))
	}
	if upto > 112 {
		op = append(op, n.RegisterMessage(k112{}, func(b []byte) (k112, error) { return k112{b}, nil }))
	}
	if upto > 113 {
		op = append(op, n.RegisterMessage(k113{}, func(b []byte) (k113, error) { return k113{b}, nil }))
	}
	if upto > 114 {
		op = append(op, n.RegisterMessage(k114{}, func(b []byte) (k114, error) { return k114{b}, nil }))
	}
	if upto > 115 {
		op = append(op, n.RegisterMessage(k115{}, func(b []byte) (k115, error) { return k115{b}, nil }))
	}
	if upto > 116 {
		op = append(op, n.RegisterMessage(k116{}, func(b []byte) (k116, error) { return k116{b}, nil }))
	}
	if upto > 117 {
		op = append(op, n.RegisterMessage(k117{}, func(b []byte) (k117, error) { return k117{b}, nil }))
	}
	if upto > 118 {
		op = append(op, n.RegisterMessage(k118{}, func(b []byte) (k118, error) { return k118{b}, nil }))
	}
	if upto > 119 {
		op = append(op, n.RegisterMessage(k119{}, func(b []byte) (k119, error) { return k119{b}, nil }))
	}
	if upto > 120 {
		op = append(op, n.RegisterMessage(k120{}, func(b []byte) (k120, error) { return k120{b}, nil }))
	}
	if upto > 121 {
		op = append(op, n.RegisterMessage(k121{}, func(b []byte) (k121, error) { return k121{b}, nil }))
	}
	if upto > 122 {
		op = append(op, n.RegisterMessage(k122{}, func(b []byte) (k122, error) { return k122{b}, nil }))
	}
	if upto > 123 {
		op = append(op, n.RegisterMessage(k123{}, func(b []byte) (k123, error) { return k123{b}, nil }))
	}
	if upto > 124 {
		op = append(op, n.RegisterMessage(k124{}, func(b []byte) (k124, error) { return k124{b}, nil }))
	}
	if upto > 125 {
		op = append(op, n.RegisterMessage(k125{}, func(b []byte) (k125, error) { return k125{b}, nil }))
	}
	if upto > 126 {
		op = append(op, n.RegisterMessage(k126{}, func(b []byte) (k126, error) { return k126{b}, nil }))
	}
	if upto > 127 {
		op = append(op, n.RegisterMessage(k127{}, func(b []byte) (k127, error) { return k127{b}, nil }))
	}
	if upto > 128 {
		op = append(op, n.RegisterMessage(k128{}, func(b []byte) (k128, error) { return k128{b}, nil }))
	}
	if upto > 129 {
		op = append(op, n.RegisterMessage(k129{}, func(b []byte) (k129, error) { return k129{b}, nil }))
	}
	if upto > 130 {
		op = append(op, n.RegisterMessage(k130{}, func(b []byte) (k130, error) { return k130{b}, nil }))
	}
	if upto > 131 {
		op = append(op, n.RegisterMessage(k131{}, func(b []byte) (k131, error) { return k131{b}, nil }))
	}
	if upto > 132 {
		op = append(op, n.RegisterMessage(k132{}, func(b []byte) (k132, error) { return k132{b}, nil }))
	}
	if upto > 133 {
		op = append(op, n.RegisterMessage(k133{}, func(b []byte) (k133, error) { return k133{b}, nil }))
	}
	if upto > 134 {
		op = append(op, n.RegisterMessage(k134{}, func(b []byte) (k134, error) { return k134{b}, nil }))
	}
	if upto > 135 {
		op = append(op, n.RegisterMessage(k135{}, func(b []byte) (k135, error) { return k135{b}, nil }))
	}
	if upto > 136 {
		op = append(op, n.RegisterMessage(k136{}, func(b []byte) (k136, error) { return k136{b}, nil }))
	}
	if upto > 137 {
		op = append(op, n.RegisterMessage(k137{}, func(b []byte) (k137, error) { return k137{b}, nil }))
	}
	if upto > 138 {
		op = append(op, n.RegisterMessage(k138{}, func(b []byte) (k138, error) { return k138{b}, nil }))
	}
	if upto > 139 {
		op = append(op, n.RegisterMessage(k139{}, func(b []byte) (k139, error) { return k139{b}, nil }))
	}
	if upto > 140 {
		op = append(op, n.RegisterMessage(k140{}, func(b []byte) (k140, error) { return k140{b}, nil }))
	}
	if upto > 141 {
		op = append(op, n.RegisterMessage(k141{}, func(b []byte) (k141, error) { return k141{b}, nil }))
	}
	if upto > 142 {
		op = append(op, n.RegisterMessage(k142{}, func(b []byte) (k142, error) { return k142{b}, nil }))
	}
	if upto > 143 {
		op = append(op, n.RegisterMessage(k143{}, func(b []byte) (k143, error) { return k143{b}, nil }))
	}
	if upto > 144 {
		op = append(op, n.RegisterMessage(k144{}, func(b []byte) (k144, error) { return k144{b}, nil }))
	}
	if upto > 145 {
		op = append(op, n.RegisterMessage(k145{}, func(b []byte) (k145, error) { return k145{b}, nil }))
	}
	if upto > 146 {
		op = append(op, n.RegisterMessage(k146{}, func(b []byte) (k146, error) { return k146{b}, nil }))
	}
	if upto > 147 {
		op = append(op, n.RegisterMessage(k147{}, func(b []byte) (k147, error) { return k147{b}, nil }))
	}
	if upto > 148 {
		op = append(op, n.RegisterMessage(k148{}, func(b []byte) (k148, error) { return k148{b}, nil }))
	}
	if upto > 149 {
		op = append(op, n.RegisterMessage(k149{}, func(b []byte) (k149, error) { return k149{b}, nil }))
	}
	if upto > 150 {
		op = append(op, n.RegisterMessage(k150{}, func(b []byte) (k150, error) { return k150{b}, nil }))
	}
	if upto > 151 {
		op = append(op, n.RegisterMessage(k151{}, func(b []byte) (k151, error) { return k151{b}, nil }))
	}
	if upto > 152 {
		op = append(op, n.RegisterMessage(k152{}, func(b []byte) (k152, error) { return k152{b}, nil }))
	}
	if upto > 153 {
		op = append(op, n.RegisterMessage(k153{}, func(b []byte) (k153, error) { return k153{b}, nil }))
	}
	if upto > 154 {
		op = append(op, n.RegisterMessage(k154{}, func(b []byte) (k154, error) { return k154{b}, nil }))
	}
	if upto > 155 {
		op = append(op, n.RegisterMessage(k155{}, func(b []byte) (k155, error) { return k155{b}, nil }))
	}
	if upto > 156 {
		op = append(op, n.RegisterMessage(k156{}, func(b []byte) (k156, error) { return k156{b}, nil }))
	}
	if upto > 157 {
		op = append(op, n.RegisterMessage(k157{}, func(b []byte) (k157, error) { return k157{b}, nil }))
	}
	if upto > 158 {
		op = append(op, n.RegisterMessage(k158{}, func(b []byte) (k158, error) { return k158{b}, nil }))
	}
	if upto > 159 {
		op = append(op, n.RegisterMessage(k159{}, func(b []byte) (k159, error) { return k159{b}, nil }))
	}
	if upto > 160 {
		op = append(op, n.RegisterMessage(k160{}, func(b []byte) (k160, error) { return k160{b}, nil }))
	}
	if upto > 161 {
		op = append(op, n.RegisterMessage(k161{}, func(b []byte) (k161, error) { return k161{b}, nil }))
	}
	if upto > 162 {
		op = append(op, n.RegisterMessage(k162{}, func(b []byte) (k162, error) { return k162{b}, nil }))
	}
	if upto > 163 {
		op = append(op, n.RegisterMessage(k163{}, func(b []byte) (k163, error) { return k163{b}, nil }))
	}
	if upto > 164 {
		op = append(op, n.RegisterMessage(k164{}, func(b []byte) (k164, error) { return k164{b}, nil }))
	}
	if upto > 165 {
		op = append(op, n.RegisterMessage(k165{}, func(b []byte) (k165, error) { return k165{b}, nil }))
	}
	if upto > 166 {
		op = append(op, n.RegisterMessage(k166{}, func(b []byte) (k166, error) { return k166{b}, nil }))
	}
	if upto > 167 {
		op = append(op, n.RegisterMessage(k167{}, func(b []byte) (k167, error) { return k167{b}, nil }))
	}
	if upto > 168 {
		op = append(op, n.RegisterMessage(k168{}, func(b []byte) (k168, error) { return k168{b}, nil }))
	}
	if upto > 169 {
		op = append(op, n.RegisterMessage(k169{}, func(b []byte) (k169, error) { return k169{b}, nil }))
	}
	if upto > 170 {
		op = append(op, n.RegisterMessage(k170{}, func(b []byte) (k170, error) { return k170{b}, nil }))
	}
	if upto > 171 {
		op = append(op, n.RegisterMessage(k171{}, func(b []byte) (k171, error) { return k171{b}, nil }))
	}
	if upto > 172 {
		op = append(op, n.RegisterMessage(k172{}, func(b []byte) (k172, error) { return k172{b}, nil }))
	}
	if upto > 173 {
		op = append(op, n.RegisterMessage(k173{}, func(b []byte) (k173, error) { return k173{b}, nil }))
	}
	if upto > 174 {
		op = append(op, n.RegisterMessage(k174{}, func(b []byte) (k174, error) { return k174{b}, nil }))
	}
	if upto > 175 {
		op = append(op, n.RegisterMessage(k175{}, func(b []byte) (k175, error) { return k175{b}, nil }))
	}
	if upto > 176 {
		op = append(op, n.RegisterMessage(k176{}, func(b []byte) (k176, error) { return k176{b}, nil }))
	}
	if upto > 177 {
		op = append(op, n.RegisterMessage(k177{}, func(b []byte) (k177, error) { return k177{b}, nil }))
	}
	if upto > 178 {
		op = append(op, n.RegisterMessage(k178{}, func(b []byte) (k178, error) { return k178{b}, nil }))
	}
	if upto > 179 {
		op = append(op, n.RegisterMessage(k179{}, func(b []byte) (k179, error) { return k179{b}, nil }))
	}
	if upto > 180 {
		op = append(op, n.RegisterMessage(k180{}, func(b []byte) (k180, error) { return k180{b}, nil }))
	}
	if upto > 181 {
		op = append(op, n.RegisterMessage(k181{}, func(b []byte) (k181, error) { return k181{b}, nil }))
	}
	if upto > 182 {
		op = append(op, n.RegisterMessage(k182{}, func(b []byte) (k182, error) { return k182{b}, nil }))
	}
	if upto > 183 {
		op = append(op, n.RegisterMessage(k183{}, func(b []byte) (k183, error) { return k183{b}, nil }))
	}
	if upto > 184 {
		op = append(op, n.RegisterMessage(k184{}, func(b []byte) (k184, error) { return k184{b}, nil }))
	}
	if upto > 185 {
		op = append(op, n.RegisterMessage(k185{}, func(b []byte) (k185, error) { return k185{b}, nil }))
	}
	if upto > 186 {
		op = append(op, n.RegisterMessage(k186{}, func(b []byte) (k186, error) { return k186{b}, nil }))
	}
	if upto > 187 {
		op = append(op, n.RegisterMessage(k187{}, func(b []byte) (k187, error) { return k187{b}, nil }))
	}
	if upto > 188 {
		op = append(op, n.RegisterMessage(k188{}, func(b []byte) (k188, error) { return k188{b}, nil }))
	}
	if upto > 189 {
		op = append(op, n.RegisterMessage(k189{}, func(b []byte) (k189, error) { return k189{b}, nil }))
	}
	if upto > 190 {
		op = append(op, n.RegisterMessage(k190{}, func(b []byte) (k190, error) { return k190{b}, nil }))
	}
	if upto > 191 {
		op = append(op, n.RegisterMessage(k191{}, func(b []byte) (k191, error) { return k191{b}, nil }))
	}
	if upto > 192 {
		op = append(op, n.RegisterMessage(k192{}, func(b []byte) (k192, error) { return k192{b}, nil }))
	}
	if upto > 193 {
		op = append(op, n.RegisterMessage(k193{}, func(b []byte) (k193, error) { return k193{b}, nil }))
	}
	if upto > 194 {
		op = append(op, n.RegisterMessage(k194{}, func(b []byte) (k194, error) { return k194{b}, nil }))
	}
	if upto > 195 {
		op = append(op, n.RegisterMessage(k195{}, func(b []byte) (k195, error) { return k195{b}, nil }))
	}
	if upto > 196 {
		op = append(op, n.RegisterMessage(k196{}, func(b []byte) (k196, error) { return k196{b}, nil }))
	}
	if upto > 197 {
		op = append(op, n.RegisterMessage(k197{}, func(b []byte) (k197, error) { return k197{b}, nil }))
	}
	if upto > 198 {
		op = append(op, n.RegisterMessage(k198{}, func(b []byte) (k198, error) { return k198{b}, nil }))
	}
	if upto > 199 {
		op = append(op, n.RegisterMessage(k199{}, func(b []byte) (k199, error) { return k199{b}, nil }))
	}
	if upto > 200 {
		op = append(op, n.RegisterMessage(k200{}, func(b []byte) (k200, error) { return k200{b}, nil }))
	}
	if upto > 201 {
		op = append(op, n.RegisterMessage(k201{}, func(b []byte) (k201, error) { return k201{b}, nil }))
	}
	if upto > 202 {
		op = append(op, n.RegisterMessage(k202{}, func(b []byte) (k202, error) { return k202{b}, nil }))
	}
	if upto > 203 {
		op = append(op, n.RegisterMessage(k203{}, func(b []byte) (k203, error) { return k203{b}, nil }))
	}
	if upto > 204 {
		op = append(op, n.RegisterMessage(k204{}, func(b []byte) (k204, error) { return k204{b}, nil }))
	}
	if upto > 205 {
		op = append(op, n.RegisterMessage(k205{}, func(b []byte) (k205, error) { return k205{b}, nil }))
	}
	if upto > 206 {
		op = append(op, n.RegisterMessage(k206{}, func(b []byte) (k206, error) { return k206{b}, nil }))
	}
	if upto > 207 {
		op = append(op, n.RegisterMessage(k207{}, func(b []byte) (k207, error) { return k207{b}, nil }))
	}
	if upto > 208 {
		op = append(op, n.RegisterMessage(k208{}, func(b []byte) (k208, error) { return k208{b}, nil }))
	}
	if upto > 209 {
		op = append(op, n.RegisterMessage(k209{}, func(b []byte) (k209, error) { return k209{b}, nil }))
	}
	if upto > 210 {
		op = append(op, n.RegisterMessage(k210{}, func(b []byte) (k210, error) { return k210{b}, nil }))
	}
	if upto > 211 {
		op = append(op, n.RegisterMessage(k211{}, func(b []byte) (k211, error) { return k211{b}, nil }))
	}
	if upto > 212 {
		op = append(op, n.RegisterMessage(k212{}, func(b []byte) (k212, error) { return k212{b}, nil }))
	}
	if upto > 213 {
		op = append(op, n.RegisterMessage(k213{}, func(b []byte) (k213, error) { return k213{b}, nil }))
	}
	if upto > 214 {
		op = append(op, n.RegisterMessage(k214{}, func(b []byte) (k214, error) { return k214{b}, nil }))
	}
	if upto > 215 {
		op = append(op, n.RegisterMessage(k215{}, func(b []byte) (k215, error) { return k215{b}, nil }))
	}
	if upto > 216 {
		op = append(op, n.RegisterMessage(k216{}, func(b []byte) (k216, error) { return k216{b}, nil }))
	}
	if upto > 217 {
		op = append(op, n.RegisterMessage(k217{}, func(b []byte) (k217, error) { return k217{b}, nil }))
	}
	if upto > 218 {
		op = append(op, n.RegisterMessage(k218{}, func(b []byte) (k218, error) { return k218{b}, nil }))
	}
	if upto > 219 {
		op = append(op, n.RegisterMessage(k219{}, func(b []byte) (k219, error) { return k219{b}, nil }))
	}
	if upto > 220 {
		op = append(op, n.RegisterMessage(k220{}, func(b []byte) (k220, error) { return k220{b}, nil }))
	}
	if upto > 221 {
		op = append(op, n.RegisterMessage(k221{}, func(b []byte) (k221, error) { return k221{b}, nil }))
	}
	if upto > 222 {
		op = append(op, n.RegisterMessage(k222{}, func(b []byte) (k222, error) { return k222{b}, nil }))
	}
	if upto > 223 {
		op = append(op, n.RegisterMessage(k223{}, func(b []byte) (k223, error) { return k223{b}, nil }))
	}
	if upto > 224 {
		op = append(op, n.RegisterMessage(k224{}, func(b []byte) (k224, error) { return k224{b}, nil }))
	}
	if upto > 225 {
		op = append(op, n.RegisterMessage(k225{}, func(b []byte) (k225, error) { return k225{b}, nil }))
	}
	if upto > 226 {
		op = append(op, n.RegisterMessage(k226{}, func(b []byte) (k226, error) { return k226{b}, nil }))
	}
	if upto > 227 {
		op = append(op, n.RegisterMessage(k227{}, func(b []byte) (k227, error) { return k227{b}, nil }))
	}
	if upto > 228 {
		op = append(op, n.RegisterMessage(k228{}, func(b []byte) (k228, error) { return k228{b}, nil }))
	}
	if upto > 229 {
		op = append(op, n.RegisterMessage(k229{}, func(b []byte) (k229, error) { return k229{b}, nil }))
	}
	if upto > 230 {
		op = append(op, n.RegisterMessage(k230{}, func(b []byte) (k230, error) { return k230{b}, nil }))
	}
	if upto > 231 {
		op = append(op, n.RegisterMessage(k231{}, func(b []byte) (k231, error) { return k231{b}, nil }))
	}
	if upto > 232 {
		op = append(op, n.RegisterMessage(k232{}, func(b []byte) (k232, error) { return k232{b}, nil }))
	}
	if upto > 233 {
		op = append(op, n.RegisterMessage(k233{}, func(b []byte) (k233, error) { return k233{b}, nil }))
	}
	if upto > 234 {
		op = append(op, n.RegisterMessage(k234{}, func(b []byte) (k234, error) { return k234{b}, nil }))
	}
	if upto > 235 {
		op = append(op, n.RegisterMessage(k235{}, func(b []byte) (k235, error) { return k235{b}, nil }))
	}
	if upto > 236 {
		op = append(op, n.RegisterMessage(k236{}, func(b []byte) (k236, error) { return k236{b}, nil }))
	}
	if upto > 237 {
		op = append(op, n.RegisterMessage(k237{}, func(b []byte) (k237, error) { return k237{b}, nil }))
	}
	if upto > 238 {
		op = append(op, n.RegisterMessage(k238{}, func(b []byte) (k238, error) { return k238{b}, nil }))
	}
	if upto > 239 {
		op = append(op, n.RegisterMessage(k239{}, func(b []byte) (k239, error) { return k239{b}, nil }))
	}
	if upto > 240 {
		op = append(op, n.RegisterMessage(k240{}, func(b []byte) (k240, error) { return k240{b}, nil }))
	}
	if upto > 241 {
		op = append(op, n.RegisterMessage(k241{}, func(b []byte) (k241, error) { return k241{b}, nil }))
	}
	if upto > 242 {
		op = append(op, n.RegisterMessage(k242{}, func(b []byte) (k242, error) { return k242{b}, nil }))
	}
	if upto > 243 {
		op = append(op, n.RegisterMessage(k243{}, func(b []byte) (k243, error) { return k243{b}, nil }))
	}
	if upto > 244 {
		op = append(op, n.RegisterMessage(k244{}, func(b []byte) (k244, error) { return k244{b}, nil }))
	}
	if upto > 245 {
		op = append(op, n.RegisterMessage(k245{}, func(b []byte) (k245, error) { return k245{b}, nil }))
	}
	if upto > 246 {
		op = append(op, n.RegisterMessage(k246{}, func(b []byte) (k246, error) { return k246{b}, nil }))
	}
	if upto > 247 {
		op = append(op, n.RegisterMessage(k247{}, func(b []byte) (k247, error) { return k247{b}, nil }))
	}
	if upto > 248 {
		op = append(op, n.RegisterMessage(k248{}, func(b []byte) (k248, error) { return k248{b}, nil }))
	}
	if upto > 249 {
		op = append(op, n.RegisterMessage(k249{}, func(b []byte) (k249, error) { return k249{b}, nil }))
	}
	if upto > 250 {
		op = append(op, n.RegisterMessage(k250{}, func(b []byte) (k250, error) { return k250{b}, nil }))
	}
	if upto > 251 {
		op = append(op, n.RegisterMessage(k251{}, func(b []byte) (k251, error) { return k251{b}, nil }))
	}
	if upto > 252 {
		op = append(op, n.RegisterMessage(k252{}, func(b []byte) (k252, error) { return k252{b}, nil }))
	}
	if upto > 253 {
		op = append(op, n.RegisterMessage(k253{}, func(b []byte) (k253, error) { return k253{b}, nil }))
	}
	if upto > 254 {
		op = append(op, n.RegisterMessage(k254{}, func(b []byte) (k254, error) { return k254{b}, nil }))
	}
	if upto > 255 {
		op = append(op, n.RegisterMessage(k255{}, func(b []byte) (k255, error) { return k255{b}, nil }))
	}
	if upto > 256 {
		op = append(op, n.RegisterMessage(k256{}, func(b []byte) (k256, error) { return k256{b}, nil }))
	}
	if upto > 257 {
		op = append(op, n.RegisterMessage(k257{}, func(b []byte) (k257, error) { return k257{b}, nil }))
	}
	if upto > 258 {
		op = append(op, n.RegisterMessage(k258{}, func(b []byte) (k258, error) { return k258{b}, nil }))
	}
	if upto > 259 {
		op = append(op, n.RegisterMessage(k259{}, func(b []byte) (k259, error) { return k259{b}, nil }))
	}
	if upto > 260 {
		op = append(op, n.RegisterMessage(k260{}, func(b []byte) (k260, error) { return k260{b}, nil }))
	}
	if upto > 261 {
		op = append(op, n.RegisterMessage(k261{}, func(b []byte) (k261, error) { return k261{b}, nil }))
	}
	if upto > 262 {
		op = append(op, n.RegisterMessage(k262{}, func(b []byte) (k262, error) { return k262{b}, nil }))
	}
	if upto > 263 {
		op = append(op, n.RegisterMessage(k263{}, func(b []byte) (k263, error) { return k263{b}, nil }))
	}
	if upto > 264 {
		op = append(op, n.RegisterMessage(k264{}, func(b []byte) (k264, error) { return k264{b}, nil }))
	}
	if upto > 265 {
		op = append(op, n.RegisterMessage(k265{}, func(b []byte) (k265, error) { return k265{b}, nil }))
	}
	if upto > 266 {
		op = append(op, n.RegisterMessage(k266{}, func(b []byte) (k266, error) { return k266{b}, nil }))
	}
	if upto > 267 {
		op = append(op, n.RegisterMessage(k267{}, func(b []byte) (k267, error) { return k267{b}, nil }))
	}
	if upto > 268 {
		op = append(op, n.RegisterMessage(k268{}, func(b []byte) (k268, error) { return k268{b}, nil }))
	}
	if upto > 269 {
		op = append(op, n.RegisterMessage(k269{}, func(b []byte) (k269, error) { return k269{b}, nil }))
	}
	if upto > 270 {
		op = append(op, n.RegisterMessage(k270{}, func(b []byte) (k270, error) { return k270{b}, nil }))
	}
	if upto > 271 {
		op = append(op, n.RegisterMessage(k271{}, func(b []byte) (k271, error) { return k271{b}, nil }))
	}
	if upto > 272 {
		op = append(op, n.RegisterMessage(k272{}, func(b []byte) (k272, error) { return k272{b}, nil }))
	}
	if upto > 273 {
		op = append(op, n.RegisterMessage(k273{}, func(b []byte) (k273, error) { return k273{b}, nil }))
	}
	if upto > 274 {
		op = append(op, n.RegisterMessage(k274{}, func(b []byte) (k274, error) { return k274{b}, nil }))
	}
	if upto > 275 {
		op = append(op, n.RegisterMessage(k275{}, func(b []byte) (k275, error) { return k275{b}, nil }))
	}
	if upto > 276 {
		op = append(op, n.RegisterMessage(k276{}, func(b []byte) (k276, error) { return k276{b}, nil }))
	}
	if upto > 277 {
		op = append(op, n.RegisterMessage(k277{}, func(b []byte) (k277, error) { return k277{b}, nil }))
	}
	if upto > 278 {
		op = append(op, n.RegisterMessage(k278{}, func(b []byte) (k278, error) { return k278{b}, nil }))
	}
	if upto > 279 {
		op = append(op, n.RegisterMessage(k279{}, func(b []byte) (k279, error) { return k279{b}, nil }))
	}
	if upto > 280 {
		op = append(op, n.RegisterMessage(k280{}, func(b []byte) (k280, error) { return k280{b}, nil }))
	}
	if upto > 281 {
		op = append(op, n.RegisterMessage(k281{}, func(b []byte) (k281, error) { return k281{b}, nil }))
	}
	if upto > 282 {
		op = append(op, n.RegisterMessage(k282{}, func(b []byte) (k282, error) { return k282{b}, nil }))
	}
	if upto > 283 {
		op = append(op, n.RegisterMessage(k283{}, func(b []byte) (k283, error) { return k283{b}, nil }))
	}
	if upto > 284 {
		op = append(op, n.RegisterMessage(k284{}, func(b []byte) (k284, error) { return k284{b}, nil }))
	}
	if upto > 285 {
		op = append(op, n.RegisterMessage(k285{}, func(b []byte) (k285, error) { return k285{b}, nil }))
	}
	if upto > 286 {
		op = append(op, n.RegisterMessage(k286{}, func(b []byte) (k286, error) { return k286{b}, nil }))
	}
	if upto > 287 {
		op = append(op, n.RegisterMessage(k287{}, func(b []byte) (k287, error) { return k287{b}, nil }))
	}
	if upto > 288 {
		op = append(op, n.RegisterMessage(k288{}, func(b []byte) (k288, error) { return k288{b}, nil }))
	}
	if upto > 289 {
		op = append(op, n.RegisterMessage(k289{}, func(b []byte) (k289, error) { return k289{b}, nil }))
	}
	if upto > 290 {
		op = append(op, n.RegisterMessage(k290{}, func(b []byte) (k290, error) { return k290{b}, nil }))
	}
	if upto > 291 {
		op = append(op, n.RegisterMessage(k291{}, func(b []byte) (k291, error) { return k291{b}, nil }))
	}
	if upto > 292 {
		op = append(op, n.RegisterMessage(k292{}, func(b []byte) (k292, error) { return k292{b}, nil }))
	}
	if upto > 293 {
		op = append(op, n.RegisterMessage(k293{}, func(b []byte) (k293, error) { return k293{b}, nil }))
	}
	if upto > 294 {
		op = append(op, n.RegisterMessage(k294{}, func(b []byte) (k294, error) { return k294{b}, nil }))
	}
	if upto > 295 {
		op = append(op, n.RegisterMessage(k295{}, func(b []byte) (k295, error) { return k295{b}, nil }))
	}
	if upto > 296 {
		op = append(op, n.RegisterMessage(k296{}, func(b []byte) (k296, error) { return k296{b}, nil }))
	}
	if upto > 297 {
		op = append(op, n.RegisterMessage(k297{}, func(b []byte) (k297, error) { return k297{b}, nil }))
	}
	if upto > 298 {
		op = append(op, n.RegisterMessage(k298{}, func(b []byte) (k298, error) { return k298{b}, nil }))
	}
	if upto > 299 {
		op = append(op, n.RegisterMessage(k299{}, func(b []byte) (k299, error) { return k299{b}, nil }))
	}
	return op
}

func manyMsg(i int, b []byte) noise.Serializable {
	switch i {
	case 0:
		return k0{b}
	case 1:
		return k1{b}
	case 2:
		return k2{b}
	case 3:
		return k3{b}
	case 4:
		return k4{b}
	case 5:
		return k5{b}
	case 6:
		return k6{b}
	case 7:
		return k7{b}
	case 8:
		return k8{b}
	case 9:
		return k9{b}
	case 10:
		return k10{b}
	case 11:
		return k11{b}
	case 12:
		return k12{b}
	case 13:
		return k13{b}
	case 14:
		return k14{b}
	case 15:
		return k15{b}
	case 16:
		return k16{b}
	case 17:
		return k17{b}
	case 18:
		return k18{b}
	case 19:
		return k19{b}
	case 20:
		return k20{b}
	case 21:
		return k21{b}
	case 22:
		return k22{b}
	case 23:
		return k23{b}
	case 24:
		return k24{b}
	case 25:
		return k25{b}
	case 26:
		return k26{b}
	case 27:
		return k27{b}
	case 28:
		return k28{b}
	case 29:
		return k29{b}
	case 30:
		return k30{b}
	case 31:
		return k31{b}
	case 32:
		return k32{b}
	case 33:
		return k33{b}
	case 34:
		return k34{b}
	case 35:
		return k35{b}
	case 36:
		return k36{b}
	case 37:
		return k37{b}
	case 38:
		return k38{b}
	case 39:
		return k39{b}
	case 40:
		return k40{b}
	case 41:
		return k41{b}
	case 42:
		return k42{b}
	case 43:
		return k43{b}
	case 44:
		return k44{b}
	case 45:
		return k45{b}
	case 46:
		return k46{b}
	case 47:
		return k47{b}
	case 48:
		return k48{b}
	case 49:
		return k49{b}
	case 50:
		return k50{b}
	case 51:
		return k51{b}
	case 52:
		return k52{b}
	case 53:
		return k53{b}
	case 54:
		return k54{b}
	case 55:
		return k55{b}
	case 56:
		return k56{b}
	case 57:
		return k57{b}
	case 58:
		return k58{b}
	case 59:
		return k59{b}
	case 60:
		return k60{b}
	case 61:
		return k61{b}
	case 62:
		return k62{b}
	case 63:
		return k63{b}
	case 64:
		return k64{b}
	case 65:
		return k65{b}
	case 66:
		return k66{b}
	case 67:
		return k67{b}
	case 68:
		return k68{b}
	case 69:
		return k69{b}
	case 70:
		return k70{b}
	case 71:
		return k71{b}
	case 72:
		return k72{b}
	case 73:
		return k73{b}
	case 74:
		return k74{b}
	case 75:
		return k75{b}
	case 76:
		return k76{b}
	case 77:
		return k77{b}
	case 78:
		return k78{b}
	case 79:
		return k79{b}
	case 80:
		return k80{b}
	case 81:
		return k81{b}
	case 82:
		return k82{b}
	case 83:
		return k83{b}
	case 84:
		return k84{b}
	case 85:
		return k85{b}
	case 86:
		return k86{b}
	case 87:
		return k87{b}
	case 88:
		return k88{b}
	case 89:
		return k89{b}
	case 90:
		return k90{b}
	case 91:
		return k91{b}
	case 92:
		return k92{b}
	case 93:
		return k93{b}
	case 94:
		return k94{b}
	case 95:
		return k95{b}
	case 96:
		return k96{b}
	case 97:
		return k97{b}
	case 98:
		return k98{b}
	case 99:
		return k99{b}
	case 100:
		return k100{b}
	case 101:
		return k101{b}
	case 102:
		return k102{b}
	case 103:
		return k103{b}
	case 104:
		return k104{b}
	case 105:
		return k105{b}
	case 106:
		return k106{b}
	case 107:
		return k107{b}
	case 108:
		return k108{b}
	case 109:
		return k109{b}
	case 110:
		return k110{b}
	case 111:
		return k111{b}
	case 112:
		return k112{b}
	case 113:
		return k113{b}
	case 114:
		return k114{b}
	case 115:
		return k115{b}
	case 116:
		return k116{b}
	case 117:
		return k117{b}
	case 118:
		return k118{b}
	case 119:
		return k119{b}
	case 120:
		return k120{b}
	case 121:
		return k121{b}
	case 122:
		return k122{b}
	case 123:
		return k123{b}
	case 124:
		return k124{b}
	case 125:
		return k125{b}
	case 126:
		return k126{b}
	case 127:
		return k127{b}
	case 128:
		return k128{b}
	case 129:
		return k129{b}
	case 130:
		return k130{b}
	case 131:
		return k131{b}
	case 132:
		return k132{b}
	case 133:
		return k133{b}
	case 134:
		return k134{b}
	case 135:
		return k135{b}
	case 136:
		return k136{b}
	case 137:
		return k137{b}
	case 138:
		return k138{b}
	case 139:
		return k139{b}
	case 140:
		return k140{b}
	case 141:
		return k141{b}
	case 142:
		return k142{b}
	case 143:
		return k143{b}
	case 144:
		return k144{b}
	case 145:
		return k145{b}
	case 146:
		return k146{b}
	case 147:
		return k147{b}
	case 148:
		return k148{b}
	case 149:
		return k149{b}
	case 150:
		return k150{b}
	case 151:
		return k151{b}
	case 152:
		return k152{b}
	case 153:
		return k153{b}
	case 154:
		return k154{b}
	case 155:
		return k155{b}
	case 156:
		return k156{b}
	case 157:
		return k157{b}
	case 158:
		return k158{b}
	case 159:
		return k159{b}
	case 160:
		return k160{b}
	case 161:
		return k161{b}
	case 162:
		return k162{b}
	case 163:
		return k163{b}
	case 164:
		return k164{b}
	case 165:
		return k165{b}
	case 166:
		return k166{b}
	case 167:
		return k167{b}
	case 168:
		return k168{b}
	case 169:
		return k169{b}
	case 170:
		return k170{b}
	case 171:
		return k171{b}
	case 172:
		return k172{b}
	case 173:
		return k173{b}
	case 174:
		return k174{b}
	case 175:
		return k175{b}
	case 176:
		return k176{b}
	case 177:
		return k177{b}
	case 178:
		return k178{b}
	case 179:
		return k179{b}
	case 180:
		return k180{b}
	case 181:
		return k181{b}
	case 182:
		return k182{b}
	case 183:
		return k183{b}
	case 184:
		return k184{b}
	case 185:
		return k185{b}
	case 186:
		return k186{b}
	case 187:
		return k187{b}
	case 188:
		return k188{b}
	case 189:
		return k189{b}
	case 190:
		return k190{b}
	case 191:
		return k191{b}
	case 192:
		return k192{b}
	case 193:
		return k193{b}
	case 194:
		return k194{b}
	case 195:
		return k195{b}
	case 196:
		return k196{b}
	case 197:
		return k197{b}
	case 198:
		return k198{b}
	case 199:
		return k199{b}
	case 200:
		return k200{b}
	case 201:
		return k201{b}
	case 202:
		return k202{b}
	case 203:
		return k203{b}
	case 204:
		return k204{b}
	case 205:
		return k205{b}
	case 206:
		return k206{b}
	case 207:
		return k207{b}
	case 208:
		return k208{b}
	case 209:
		return k209{b}
	case 210:
		return k210{b}
	case 211:
		return k211{b}
	case 212:
		return k212{b}
	case 213:
		return k213{b}
	case 214:
		return k214{b}
	case 215:
		return k215{b}
	case 216:
		return k216{b}
	case 217:
		return k217{b}
	case 218:
		return k218{b}
	case 219:
		return k219{b}
	case 220:
		return k220{b}
	case 221:
		return k221{b}
	case 222:
		return k222{b}
	case 223:
		return k223{b}
	case 224:
		return k224{b}
	case 225:
		return k225{b}
	case 226:
		return k226{b}
	case 227:
		return k227{b}
	case 228:
		return k228{b}
	case 229:
		return k229{b}
	case 230:
		return k230{b}
	case 231:
		return k231{b}
	case 232:
		return k232{b}
	case 233:
		return k233{b}
	case 234:
		return k234{b}
	case 235:
		return k235{b}
	case 236:
		return k236{b}
	case 237:
		return k237{b}
	case 238:
		return k238{b}
	case 239:
		return k239{b}
	case 240:
		return k240{b}
	case 241:
		return k241{b}
	case 242:
		return k242{b}
	case 243:
		return k243{b}
	case 244:
		return k244{b}
	case 245:
		return k245{b}
	case 246:
		return k246{b}
	case 247:
		return k247{b}
	case 248:
		return k248{b}
	case 249:
		return k249{b}
	case 250:
		return k250{b}
	case 251:
		return k251{b}
	case 252:
		return k252{b}
	case 253:
		return k253{b}
	case 254:
		return k254{b}
	case 255:
		return k255{b}
	case 256:
		return k256{b}
	case 257:
		return k257{b}
	case 258:
		return k258{b}
	case 259:
		return k259{b}
	case 260:
		return k260{b}
	case 261:
		return k261{b}
	case 262:
		return k262{b}
	case 263:
		return k263{b}
	case 264:
		return k264{b}
	case 265:
		return k265{b}
	case 266:
		return k266{b}
	case 267:
		return k267{b}
	case 268:
		return k268{b}
	case 269:
		return k269{b}
	case 270:
		return k270{b}
	case 271:
		return k271{b}
	case 272:
		return k272{b}
	case 273:
		return k273{b}
	case 274:
		return k274{b}
	case 275:
		return k275{b}
	case 276:
		return k276{b}
	case 277:
		return k277{b}
	case 278:
		return k278{b}
	case 279:
		return k279{b}
	case 280:
		return k280{b}
	case 281:
		return k281{b}
	case 282:
		return k282{b}
	case 283:
		return k283{b}
	case 284:
		return k284{b}
	case 285:
		return k285{b}
	case 286:
		return k286{b}
	case 287:
		return k287{b}
	case 288:
		return k288{b}
	case 289:
		return k289{b}
	case 290:
		return k290{b}
	case 291:
		return k291{b}
	case 292:
		return k292{b}
	case 293:
		return k293{b}
	case 294:
		return k294{b}
	case 295:
		return k295{b}
	case 296:
		return k296{b}
	case 297:
		return k297{b}
	case 298:
		return k298{b}
	case 299:
		return k299{b}
	}
	return nil
}

func manyBody(s noise.Serializable) (int, []byte) {
	switch m := s.(type) {
	case k0:
		return 0, m.b
	case k1:
		return 1, m.b
	case k2:
		return 2, m.b
	case k3:
		return 3, m.b
	case k4:
		return 4, m.b
	case k5:
		return 5, m.b
	case k6:
		return 6, m.b
	case k7:
		return 7, m.b
	case k8:
		return 8, m.b
	case k9:
		return 9, m.b
	case k10:
		return 10, m.b
	case k11:
		return 11, m.b
	case k12:
		return 12, m.b
	case k13:
		return 13, m.b
	case k14:
		return 14, m.b
	case k15:
		return 15, m.b
	case k16:
		return 16, m.b
	case k17:
		return 17, m.b
	case k18:
		return 18, m.b
	case k19:
		return 19, m.b
	case k20:
		return 20, m.b
	case k21:
		return 21, m.b
	case k22:
		return 22, m.b
	case k23:
		return 23, m.b
	case k24:
		return 24, m.b
	case k25:
		return 25, m.b
	case k26:
		return 26, m.b
	case k27:
		return 27, m.b
	case k28:
		return 28, m.b
	case k29:
		return 29, m.b
	case k30:
		return 30, m.b
	case k31:
		return 31, m.b
	case k32:
		return 32, m.b
	case k33:
		return 33, m.b
	case k34:
		return 34, m.b
	case k35:
		return 35, m.b
	case k36:
		return 36, m.b
	case k37:
		return 37, m.b
	case k38:
		return 38, m.b
	case k39:
		return 39, m.b
	case k40:
		return 40, m.b
	case k41:
		return 41, m.b
	case k42:
		return 42, m.b
	case k43:
		return 43, m.b
	case k44:
		return 44, m.b
	case k45:
		return 45, m.b
	case k46:
		return 46, m.b
	case k47:
		return 47, m.b
	case k48:
		return 48, m.b
	case k49:
		return 49, m.b
	case k50:
		return 50, m.b
	case k51:
		return 51, m.b
	case k52:
		return 52, m.b
	case k53:
		return 53, m.b
	case k54:
		return 54, m.b
	case k55:
		return 55, m.b
	case k56:
		return 56, m.b
	case k57:
		return 57, m.b
	case k58:
		return 58, m.b
	case k59:
		return 59, m.b
	case k60:
		return 60, m.b
	case k61:
		return 61, m.b
	case k62:
		return 62, m.b
	case k63:
		return 63, m.b
	case k64:
		return 64, m.b
	case k65:
		return 65, m.b
	case k66:
		return 66, m.b
	case k67:
		return 67, m.b
	case k68:
		return 68, m.b
	case k69:
		return 69, m.b
	case k70:
		return 70, m.b
	case k71:
		return 71, m.b
	case k72:
		return 72, m.b
	case k73:
		return 73, m.b
	case k74:
		return 74, m.b
	case k75:
		return 75, m.b
	case k76:
		return 76, m.b
	case k77:
		return 77, m.b
	case k78:
		return 78, m.b
	case k79:
		return 79, m.b
	case k80:
		return 80, m.b
	case k81:
		return 81, m.b
	case k82:
		return 82, m.b
	case k83:
		return 83, m.b
	case k84:
		return 84, m.b
	case k85:
		return 85, m.b
	case k86:
		return 86, m.b
	case k87:
		return 87, m.b
	case k88:
		return 88, m.b
	case k89:
		return 89, m.b
	case k90:
		return 90, m.b
	case k91:
		return 91, m.b
	case k92:
		return 92, m.b
	case k93:
		return 93, m.b
	case k94:
		return 94, m.b
	case k95:
		return 95, m.b
	case k96:
		return 96, m.b
	case k97:
		return 97, m.b
	case k98:
		return 98, m.b
	case k99:
		return 99, m.b
	case k100:
		return 100, m.b
	case k101:
		return 101, m.b
	case k102:
		return 102, m.b
	case k103:
		return 103, m.b
	case k104:
		return 104, m.b
	case k105:
		return 105, m.b
	case k106:
		return 106, m.b
	case k107:
		return 107, m.b
	case k108:
		return 108, m.b
	case k109:
		return 109, m.b
	case k110:
		return 110, m.b
	case k111:
		return 111, m.b
	case k112:
		return 112, m.b
	case k113:
		return 113, m.b
	case k114:
		return 114, m.b
	case k115:
		return 115, m.b
	case k116:
		return 116, m.b
	case k117:
		return 117, m.b
	case k118:
		return 118, m.b
	case k119:
		return 119, m.b
	case k120:
		return 120, m.b
	case k121:
		return 121, m.b
	case k122:
		return 122, m.b
	case k123:
		return 123, m.b
	case k124:
		return 124, m.b
	case k125:
		return 125, m.b
	case k126:
		return 126, m.b
	case k127:
		return 127, m.b
	case k128:
		return 128, m.b
	case k129:
		return 129, m.b
	case k130:
		return 130, m.b
	case k131:
		return 131, m.b
	case k132:
		return 132, m.b
	case k133:
		return 133, m.b
	case k134:
		return 134, m.b
	case k135:
		return 135, m.b
	case k136:
		return 136, m.b
	case k137:
		return 137, m.b
	case k138:
		return 138, m.b
	case k139:
		return 139, m.b
	case k140:
		return 140, m.b
	case k141:
		return 141, m.b
	case k142:
		return 142, m.b
	case k143:
		return 143, m.b
	case k144:
		return 144, m.b
	case k145:
		return 145, m.b
	case k146:
		return 146, m.b
	case k147:
		return 147, m.b
	case k148:
		return 148, m.b
	case k149:
		return 149, m.b
	case k150:
		return 150, m.b
	case k151:
		return 151, m.b
	case k152:
		return 152, m.b
	case k153:
		return 153, m.b
	case k154:
		return 154, m.b
	case k155:
		return 155, m.b
	case k156:
		return 156, m.b
	case k157:
		return 157, m.b
	case k158:
		return 158, m.b
	case k159:
		return 159, m.b
	case k160:
		return 160, m.b
	case k161:
		return 161, m.b
	case k162:
		return 162, m.b
	case k163:
		return 163, m.b
	case k164:
		return 164, m.b
	case k165:
		return 165, m.b
	case k166:
		return 166, m.b
	case k167:
		return 167, m.b
	case k168:
		return 168, m.b
	case k169:
		return 169, m.b
	case k170:
		return 170, m.b
	case k171:
		return 171, m.b
	case k172:
		return 172, m.b
	case k173:
		return 173, m.b
	case k174:
		return 174, m.b
	case k175:
		return 175, m.b
	case k176:
		return 176, m.b
	case k177:
		return 177, m.b
	case k178:
		return 178, m.b
	case k179:
		return 179, m.b
	case k180:
		return 180, m.b
	case k181:
		return 181, m.b
	case k182:
		return 182, m.b
	case k183:
		return 183, m.b
	case k184:
		return 184, m.b
	case k185:
		return 185, m.b
	case k186:
		return 186, m.b
	case k187:
		return 187, m.b
	case k188:
		return 188, m.b
	case k189:
		return 189, m.b
	case k190:
		return 190, m.b
	case k191:
		return 191, m.b
	case k192:
		return 192, m.b
	case k193:
		return 193, m.b
	case k194:
		return 194, m.b
	case k195:
		return 195, m.b
	case k196:
		return 196, m.b
	case k197:
		return 197, m.b
	case k198:
		return 198, m.b
	case k199:
		return 199, m.b
	case k200:
		return 200, m.b
	case k201:
		return 201, m.b
	case k202:
		return 202, m.b
	case k203:
		return 203, m.b
	case k204:
		return 204, m.b
	case k205:
		return 205, m.b
	case k206:
		return 206, m.b
	case k207:
		return 207, m.b
	case k208:
		return 208, m.b
	case k209:
		return 209, m.b
	case k210:
		return 210, m.b
	case k211:
		return 211, m.b
	case k212:
		return 212, m.b
	case k213:
		return 213, m.b
	case k214:
		return 214, m.b
	case k215:
		return 215, m.b
	case k216:
		return 216, m.b
	case k217:
		return 217, m.b
	case k218:
		return 218, m.b
	case k219:
		return 219, m.b
	case k220:
		return 220, m.b
	case k221:
		return 221, m.b
	case k222:
		return 222, m.b
	case k223:
		return 223, m.b
	case k224:
		return 224, m.b
	case k225:
		return 225, m.b
	case k226:
		return 226, m.b
	case k227:
		return 227, m.b
	case k228:
		return 228, m.b
	case k229:
		return 229, m.b
	case k230:
		return 230, m.b
	case k231:
		return 231, m.b
	case k232:
		return 232, m.b
	case k233:
		return 233, m.b
	case k234:
		return 234, m.b
	case k235:
		return 235, m.b
	case k236:
		return 236, m.b
	case k237:
		return 237, m.b
	case k238:
		return 238, m.b
	case k239:
		return 239, m.b
	case k240:
		return 240, m.b
	case k241:
		return 241, m.b
	case k242:
		return 242, m.b
	case k243:
		return 243, m.b
	case k244:
		return 244, m.b
	case k245:
		return 245, m.b
	case k246:
		return 246, m.b
	case k247:
		return 247, m.b
	case k248:
		return 248, m.b
	case k249:
		return 249, m.b
	case k250:
		return 250, m.b
	case k251:
		return 251, m.b
	case k252:
		return 252, m.b
	case k253:
		return 253, m.b
	case k254:
		return 254, m.b
	case k255:
		return 255, m.b
	case k256:
		return 256, m.b
	case k257:
		return 257, m.b
	case k258:
		return 258, m.b
	case k259:
		return 259, m.b
	case k260:
		return 260, m.b
	case k261:
		return 261, m.b
	case k262:
		return 262, m.b
	case k263:
		return 263, m.b
	case k264:
		return 264, m.b
	case k265:
		return 265, m.b
	case k266:
		return 266, m.b
	case k267:
		return 267, m.b
	case k268:
		return 268, m.b
	case k269:
		return 269, m.b
	case k270:
		return 270, m.b
	case k271:
		return 271, m.b
	case k272:
		return 272, m.b
	case k273:
		return 273, m.b
	case k274:
		return 274, m.b
	case k275:
		return 275, m.b
	case k276:
		return 276, m.b
	case k277:
		return 277, m.b
	case k278:
		return 278, m.b
	case k279:
		return 279, m.b
	case k280:
		return 280, m.b
	case k281:
		return 281, m.b
	case k282:
		return 282, m.b
	case k283:
		return 283, m.b
	case k284:
		return 284, m.b
	case k285:
		return 285, m.b
	case k286:
		return 286, m.b
	case k287:
		return 287, m.b
	case k288:
		return 288, m.b
	case k289:
		return 289, m.b
	case k290:
		return 290, m.b
	case k291:
		return 291, m.b
	case k292:
		return 292, m.b
	case k293:
		return 293, m.b
	case k294:
		return 294, m.b
	case k295:
		return 295, m.b
	case k296:
		return 296, m.b
	case k297:
		return 297, m.b
	case k298:
		return 298, m.b
	case k299:
		return 299, m.b
	}
	return -1, nil
}
