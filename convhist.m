function A=history 
 A=[ 
 ]; 