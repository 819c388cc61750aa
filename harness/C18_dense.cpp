// configs: A B
// configs-thorough: C D N
// bound: enumerations with every flag bit declared (2 to 10 bits) and with consecutive enumerators (2 to 257 of them) in 8, 16 and 32-bit underlying types; the stored value is any combination / any enumerator, every level is symbolic, nesting to depth 4
#include "enums.hpp"
enum class F8_2 : u8 { v0 = 1, v1 = 2 };
VP_ENUM(F8_2, -1, k < 4)
enum class F8_3 : u8 { v0 = 1, v1 = 2, v2 = 4 };
VP_ENUM(F8_3, -1, k < 8)
enum class F8_4 : u8 { v0 = 1, v1 = 2, v2 = 4, v3 = 8 };
VP_ENUM(F8_4, -1, k < 16)
enum class F8_5 : u8 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16 };
VP_ENUM(F8_5, -1, k < 32)
enum class F8_6 : u8 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32 };
VP_ENUM(F8_6, -1, k < 64)
enum class F8_7 : u8 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32, v6 = 64 };
VP_ENUM(F8_7, -1, k < 128)
enum class F8_8 : u8 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32, v6 = 64, v7 = 128 };
VP_ENUM(F8_8, 0, k < 256)
enum class F16_8 : u16 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32, v6 = 64, v7 = 128 };
VP_ENUM(F16_8, -1, k < 256)
enum class F16_9 : u16 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32, v6 = 64, v7 = 128, v8 = 256 };
VP_ENUM(F16_9, -1, k < 512)
enum class F16_10 : u16 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32, v6 = 64, v7 = 128, v8 = 256, v9 = 512 };
VP_ENUM(F16_10, -1, k < 1024)
enum class F32_9 : u32 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32, v6 = 64, v7 = 128, v8 = 256 };
VP_ENUM(F32_9, -1, k < 512)
enum class F32_10 : u32 { v0 = 1, v1 = 2, v2 = 4, v3 = 8, v4 = 16, v5 = 32, v6 = 64, v7 = 128, v8 = 256, v9 = 512 };
VP_ENUM(F32_10, -1, k < 1024)
enum class D8_2 : u8 { v0 = 0, v1 = 1 };
VP_ENUM(D8_2, -1, k < 2)
enum class D8_3 : u8 { v0 = 0, v1 = 1, v2 = 2 };
VP_ENUM(D8_3, -1, k < 3)
enum class D8_4 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3 };
VP_ENUM(D8_4, -1, k < 4)
enum class D8_5 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4 };
VP_ENUM(D8_5, -1, k < 5)
enum class D8_8 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7 };
VP_ENUM(D8_8, -1, k < 8)
enum class D8_9 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8 };
VP_ENUM(D8_9, -1, k < 9)
enum class D8_16 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15 };
VP_ENUM(D8_16, -1, k < 16)
enum class D8_17 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16 };
VP_ENUM(D8_17, -1, k < 17)
enum class D8_33 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32 };
VP_ENUM(D8_33, -1, k < 33)
enum class D8_64 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63 };
VP_ENUM(D8_64, -1, k < 64)
enum class D8_65 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64 };
VP_ENUM(D8_65, -1, k < 65)
enum class D8_127 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64, v65 = 65, v66 = 66, v67 = 67, v68 = 68, v69 = 69, v70 = 70, v71 = 71, v72 = 72, v73 = 73, v74 = 74, v75 = 75, v76 = 76, v77 = 77, v78 = 78, v79 = 79, v80 = 80, v81 = 81, v82 = 82, v83 = 83, v84 = 84, v85 = 85, v86 = 86, v87 = 87, v88 = 88, v89 = 89, v90 = 90, v91 = 91, v92 = 92, v93 = 93, v94 = 94, v95 = 95, v96 = 96, v97 = 97, v98 = 98, v99 = 99, v100 = 100, v101 = 101, v102 = 102, v103 = 103, v104 = 104, v105 = 105, v106 = 106, v107 = 107, v108 = 108, v109 = 109, v110 = 110, v111 = 111, v112 = 112, v113 = 113, v114 = 114, v115 = 115, v116 = 116, v117 = 117, v118 = 118, v119 = 119, v120 = 120, v121 = 121, v122 = 122, v123 = 123, v124 = 124, v125 = 125, v126 = 126 };
VP_ENUM(D8_127, -1, k < 127)
enum class D8_128 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64, v65 = 65, v66 = 66, v67 = 67, v68 = 68, v69 = 69, v70 = 70, v71 = 71, v72 = 72, v73 = 73, v74 = 74, v75 = 75, v76 = 76, v77 = 77, v78 = 78, v79 = 79, v80 = 80, v81 = 81, v82 = 82, v83 = 83, v84 = 84, v85 = 85, v86 = 86, v87 = 87, v88 = 88, v89 = 89, v90 = 90, v91 = 91, v92 = 92, v93 = 93, v94 = 94, v95 = 95, v96 = 96, v97 = 97, v98 = 98, v99 = 99, v100 = 100, v101 = 101, v102 = 102, v103 = 103, v104 = 104, v105 = 105, v106 = 106, v107 = 107, v108 = 108, v109 = 109, v110 = 110, v111 = 111, v112 = 112, v113 = 113, v114 = 114, v115 = 115, v116 = 116, v117 = 117, v118 = 118, v119 = 119, v120 = 120, v121 = 121, v122 = 122, v123 = 123, v124 = 124, v125 = 125, v126 = 126, v127 = 127 };
VP_ENUM(D8_128, -1, k < 128)
enum class D8_129 : u8 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64, v65 = 65, v66 = 66, v67 = 67, v68 = 68, v69 = 69, v70 = 70, v71 = 71, v72 = 72, v73 = 73, v74 = 74, v75 = 75, v76 = 76, v77 = 77, v78 = 78, v79 = 79, v80 = 80, v81 = 81, v82 = 82, v83 = 83, v84 = 84, v85 = 85, v86 = 86, v87 = 87, v88 = 88, v89 = 89, v90 = 90, v91 = 91, v92 = 92, v93 = 93, v94 = 94, v95 = 95, v96 = 96, v97 = 97, v98 = 98, v99 = 99, v100 = 100, v101 = 101, v102 = 102, v103 = 103, v104 = 104, v105 = 105, v106 = 106, v107 = 107, v108 = 108, v109 = 109, v110 = 110, v111 = 111, v112 = 112, v113 = 113, v114 = 114, v115 = 115, v116 = 116, v117 = 117, v118 = 118, v119 = 119, v120 = 120, v121 = 121, v122 = 122, v123 = 123, v124 = 124, v125 = 125, v126 = 126, v127 = 127, v128 = 128 };
VP_ENUM(D8_129, -1, k < 129)
enum class D16_129 : u16 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64, v65 = 65, v66 = 66, v67 = 67, v68 = 68, v69 = 69, v70 = 70, v71 = 71, v72 = 72, v73 = 73, v74 = 74, v75 = 75, v76 = 76, v77 = 77, v78 = 78, v79 = 79, v80 = 80, v81 = 81, v82 = 82, v83 = 83, v84 = 84, v85 = 85, v86 = 86, v87 = 87, v88 = 88, v89 = 89, v90 = 90, v91 = 91, v92 = 92, v93 = 93, v94 = 94, v95 = 95, v96 = 96, v97 = 97, v98 = 98, v99 = 99, v100 = 100, v101 = 101, v102 = 102, v103 = 103, v104 = 104, v105 = 105, v106 = 106, v107 = 107, v108 = 108, v109 = 109, v110 = 110, v111 = 111, v112 = 112, v113 = 113, v114 = 114, v115 = 115, v116 = 116, v117 = 117, v118 = 118, v119 = 119, v120 = 120, v121 = 121, v122 = 122, v123 = 123, v124 = 124, v125 = 125, v126 = 126, v127 = 127, v128 = 128 };
VP_ENUM(D16_129, -1, k < 129)
enum class D16_255 : u16 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64, v65 = 65, v66 = 66, v67 = 67, v68 = 68, v69 = 69, v70 = 70, v71 = 71, v72 = 72, v73 = 73, v74 = 74, v75 = 75, v76 = 76, v77 = 77, v78 = 78, v79 = 79, v80 = 80, v81 = 81, v82 = 82, v83 = 83, v84 = 84, v85 = 85, v86 = 86, v87 = 87, v88 = 88, v89 = 89, v90 = 90, v91 = 91, v92 = 92, v93 = 93, v94 = 94, v95 = 95, v96 = 96, v97 = 97, v98 = 98, v99 = 99, v100 = 100, v101 = 101, v102 = 102, v103 = 103, v104 = 104, v105 = 105, v106 = 106, v107 = 107, v108 = 108, v109 = 109, v110 = 110, v111 = 111, v112 = 112, v113 = 113, v114 = 114, v115 = 115, v116 = 116, v117 = 117, v118 = 118, v119 = 119, v120 = 120, v121 = 121, v122 = 122, v123 = 123, v124 = 124, v125 = 125, v126 = 126, v127 = 127, v128 = 128, v129 = 129, v130 = 130, v131 = 131, v132 = 132, v133 = 133, v134 = 134, v135 = 135, v136 = 136, v137 = 137, v138 = 138, v139 = 139, v140 = 140, v141 = 141, v142 = 142, v143 = 143, v144 = 144, v145 = 145, v146 = 146, v147 = 147, v148 = 148, v149 = 149, v150 = 150, v151 = 151, v152 = 152, v153 = 153, v154 = 154, v155 = 155, v156 = 156, v157 = 157, v158 = 158, v159 = 159, v160 = 160, v161 = 161, v162 = 162, v163 = 163, v164 = 164, v165 = 165, v166 = 166, v167 = 167, v168 = 168, v169 = 169, v170 = 170, v171 = 171, v172 = 172, v173 = 173, v174 = 174, v175 = 175, v176 = 176, v177 = 177, v178 = 178, v179 = 179, v180 = 180, v181 = 181, v182 = 182, v183 = 183, v184 = 184, v185 = 185, v186 = 186, v187 = 187, v188 = 188, v189 = 189, v190 = 190, v191 = 191, v192 = 192, v193 = 193, v194 = 194, v195 = 195, v196 = 196, v197 = 197, v198 = 198, v199 = 199, v200 = 200, v201 = 201, v202 = 202, v203 = 203, v204 = 204, v205 = 205, v206 = 206, v207 = 207, v208 = 208, v209 = 209, v210 = 210, v211 = 211, v212 = 212, v213 = 213, v214 = 214, v215 = 215, v216 = 216, v217 = 217, v218 = 218, v219 = 219, v220 = 220, v221 = 221, v222 = 222, v223 = 223, v224 = 224, v225 = 225, v226 = 226, v227 = 227, v228 = 228, v229 = 229, v230 = 230, v231 = 231, v232 = 232, v233 = 233, v234 = 234, v235 = 235, v236 = 236, v237 = 237, v238 = 238, v239 = 239, v240 = 240, v241 = 241, v242 = 242, v243 = 243, v244 = 244, v245 = 245, v246 = 246, v247 = 247, v248 = 248, v249 = 249, v250 = 250, v251 = 251, v252 = 252, v253 = 253, v254 = 254 };
VP_ENUM(D16_255, -1, k < 255)
enum class D16_256 : u16 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64, v65 = 65, v66 = 66, v67 = 67, v68 = 68, v69 = 69, v70 = 70, v71 = 71, v72 = 72, v73 = 73, v74 = 74, v75 = 75, v76 = 76, v77 = 77, v78 = 78, v79 = 79, v80 = 80, v81 = 81, v82 = 82, v83 = 83, v84 = 84, v85 = 85, v86 = 86, v87 = 87, v88 = 88, v89 = 89, v90 = 90, v91 = 91, v92 = 92, v93 = 93, v94 = 94, v95 = 95, v96 = 96, v97 = 97, v98 = 98, v99 = 99, v100 = 100, v101 = 101, v102 = 102, v103 = 103, v104 = 104, v105 = 105, v106 = 106, v107 = 107, v108 = 108, v109 = 109, v110 = 110, v111 = 111, v112 = 112, v113 = 113, v114 = 114, v115 = 115, v116 = 116, v117 = 117, v118 = 118, v119 = 119, v120 = 120, v121 = 121, v122 = 122, v123 = 123, v124 = 124, v125 = 125, v126 = 126, v127 = 127, v128 = 128, v129 = 129, v130 = 130, v131 = 131, v132 = 132, v133 = 133, v134 = 134, v135 = 135, v136 = 136, v137 = 137, v138 = 138, v139 = 139, v140 = 140, v141 = 141, v142 = 142, v143 = 143, v144 = 144, v145 = 145, v146 = 146, v147 = 147, v148 = 148, v149 = 149, v150 = 150, v151 = 151, v152 = 152, v153 = 153, v154 = 154, v155 = 155, v156 = 156, v157 = 157, v158 = 158, v159 = 159, v160 = 160, v161 = 161, v162 = 162, v163 = 163, v164 = 164, v165 = 165, v166 = 166, v167 = 167, v168 = 168, v169 = 169, v170 = 170, v171 = 171, v172 = 172, v173 = 173, v174 = 174, v175 = 175, v176 = 176, v177 = 177, v178 = 178, v179 = 179, v180 = 180, v181 = 181, v182 = 182, v183 = 183, v184 = 184, v185 = 185, v186 = 186, v187 = 187, v188 = 188, v189 = 189, v190 = 190, v191 = 191, v192 = 192, v193 = 193, v194 = 194, v195 = 195, v196 = 196, v197 = 197, v198 = 198, v199 = 199, v200 = 200, v201 = 201, v202 = 202, v203 = 203, v204 = 204, v205 = 205, v206 = 206, v207 = 207, v208 = 208, v209 = 209, v210 = 210, v211 = 211, v212 = 212, v213 = 213, v214 = 214, v215 = 215, v216 = 216, v217 = 217, v218 = 218, v219 = 219, v220 = 220, v221 = 221, v222 = 222, v223 = 223, v224 = 224, v225 = 225, v226 = 226, v227 = 227, v228 = 228, v229 = 229, v230 = 230, v231 = 231, v232 = 232, v233 = 233, v234 = 234, v235 = 235, v236 = 236, v237 = 237, v238 = 238, v239 = 239, v240 = 240, v241 = 241, v242 = 242, v243 = 243, v244 = 244, v245 = 245, v246 = 246, v247 = 247, v248 = 248, v249 = 249, v250 = 250, v251 = 251, v252 = 252, v253 = 253, v254 = 254, v255 = 255 };
VP_ENUM(D16_256, -1, k < 256)
enum class D16_257 : u16 { v0 = 0, v1 = 1, v2 = 2, v3 = 3, v4 = 4, v5 = 5, v6 = 6, v7 = 7, v8 = 8, v9 = 9, v10 = 10, v11 = 11, v12 = 12, v13 = 13, v14 = 14, v15 = 15, v16 = 16, v17 = 17, v18 = 18, v19 = 19, v20 = 20, v21 = 21, v22 = 22, v23 = 23, v24 = 24, v25 = 25, v26 = 26, v27 = 27, v28 = 28, v29 = 29, v30 = 30, v31 = 31, v32 = 32, v33 = 33, v34 = 34, v35 = 35, v36 = 36, v37 = 37, v38 = 38, v39 = 39, v40 = 40, v41 = 41, v42 = 42, v43 = 43, v44 = 44, v45 = 45, v46 = 46, v47 = 47, v48 = 48, v49 = 49, v50 = 50, v51 = 51, v52 = 52, v53 = 53, v54 = 54, v55 = 55, v56 = 56, v57 = 57, v58 = 58, v59 = 59, v60 = 60, v61 = 61, v62 = 62, v63 = 63, v64 = 64, v65 = 65, v66 = 66, v67 = 67, v68 = 68, v69 = 69, v70 = 70, v71 = 71, v72 = 72, v73 = 73, v74 = 74, v75 = 75, v76 = 76, v77 = 77, v78 = 78, v79 = 79, v80 = 80, v81 = 81, v82 = 82, v83 = 83, v84 = 84, v85 = 85, v86 = 86, v87 = 87, v88 = 88, v89 = 89, v90 = 90, v91 = 91, v92 = 92, v93 = 93, v94 = 94, v95 = 95, v96 = 96, v97 = 97, v98 = 98, v99 = 99, v100 = 100, v101 = 101, v102 = 102, v103 = 103, v104 = 104, v105 = 105, v106 = 106, v107 = 107, v108 = 108, v109 = 109, v110 = 110, v111 = 111, v112 = 112, v113 = 113, v114 = 114, v115 = 115, v116 = 116, v117 = 117, v118 = 118, v119 = 119, v120 = 120, v121 = 121, v122 = 122, v123 = 123, v124 = 124, v125 = 125, v126 = 126, v127 = 127, v128 = 128, v129 = 129, v130 = 130, v131 = 131, v132 = 132, v133 = 133, v134 = 134, v135 = 135, v136 = 136, v137 = 137, v138 = 138, v139 = 139, v140 = 140, v141 = 141, v142 = 142, v143 = 143, v144 = 144, v145 = 145, v146 = 146, v147 = 147, v148 = 148, v149 = 149, v150 = 150, v151 = 151, v152 = 152, v153 = 153, v154 = 154, v155 = 155, v156 = 156, v157 = 157, v158 = 158, v159 = 159, v160 = 160, v161 = 161, v162 = 162, v163 = 163, v164 = 164, v165 = 165, v166 = 166, v167 = 167, v168 = 168, v169 = 169, v170 = 170, v171 = 171, v172 = 172, v173 = 173, v174 = 174, v175 = 175, v176 = 176, v177 = 177, v178 = 178, v179 = 179, v180 = 180, v181 = 181, v182 = 182, v183 = 183, v184 = 184, v185 = 185, v186 = 186, v187 = 187, v188 = 188, v189 = 189, v190 = 190, v191 = 191, v192 = 192, v193 = 193, v194 = 194, v195 = 195, v196 = 196, v197 = 197, v198 = 198, v199 = 199, v200 = 200, v201 = 201, v202 = 202, v203 = 203, v204 = 204, v205 = 205, v206 = 206, v207 = 207, v208 = 208, v209 = 209, v210 = 210, v211 = 211, v212 = 212, v213 = 213, v214 = 214, v215 = 215, v216 = 216, v217 = 217, v218 = 218, v219 = 219, v220 = 220, v221 = 221, v222 = 222, v223 = 223, v224 = 224, v225 = 225, v226 = 226, v227 = 227, v228 = 228, v229 = 229, v230 = 230, v231 = 231, v232 = 232, v233 = 233, v234 = 234, v235 = 235, v236 = 236, v237 = 237, v238 = 238, v239 = 239, v240 = 240, v241 = 241, v242 = 242, v243 = 243, v244 = 244, v245 = 245, v246 = 246, v247 = 247, v248 = 248, v249 = 249, v250 = 250, v251 = 251, v252 = 252, v253 = 253, v254 = 254, v255 = 255, v256 = 256 };
VP_ENUM(D16_257, -1, k < 257)
#define X(E) VP_HARNESS(C18, dense_##E) { all<E>(); }
X(F8_2) X(F8_3) X(F8_4) X(F8_5) X(F8_6) X(F8_7) X(F8_8) X(F16_8) X(F16_9) X(F16_10) X(F32_9) X(F32_10) X(D8_2) X(D8_3) X(D8_4) X(D8_5) X(D8_8) X(D8_9) X(D8_16) X(D8_17) X(D8_33) X(D8_64) X(D8_65) X(D8_127) X(D8_128) X(D8_129) X(D16_129) X(D16_255) X(D16_256) X(D16_257)
